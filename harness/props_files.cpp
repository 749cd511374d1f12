// P15: files and directories.  Everything happens in a scratch directory that the case creates, as an unprivileged user
// who owns nothing else, so that code that loses its way finds nothing it may change.
#include <algorithm>
#include "scratch.h"
#include "str.h"
#include <dirent.h>
#include <fcntl.h>
#include <grp.h>
#include <stdlib.h>
#include <sys/stat.h>
#include <unistd.h>
#include <functional>
#include <map>
#include <set>

namespace {
String S(const B &b) { return String::utf8(b.c_str(), (int)b.size()); }
B utf(const String &s) {
	CharString u = s.utf8();
	return B(u.get_data(), u.length());
}
B slurp(const B &p, bool *ok = nullptr) {
	FILE *f = fopen(p.c_str(), "rb");
	if (ok) {
		*ok = f != nullptr;
	}
	B o;
	if (f) {
		char buf[4096];
		size_t n;
		while ((n = fread(buf, 1, sizeof buf, f)) > 0) {
			o.append(buf, n);
		}
		fclose(f);
	}
	return o;
}
void spit(const B &p, const B &b) {
	FILE *f = fopen(p.c_str(), "wb");
	if (f) {
		fwrite(b.data(), 1, b.size(), f);
		fclose(f);
	}
}
B show(const B &b) {
	B o = "\"";
	for (size_t i = 0; i < b.size() && i < 60; i++) {
		char t[8];
		if (b[i] >= 32 && b[i] < 127) {
			snprintf(t, sizeof t, "%c", b[i]);
		} else {
			snprintf(t, sizeof t, "\\x%02x", (unsigned char)b[i]);
		}
		o += t;
	}
	return o + "\" (" + std::to_string(b.size()) + ")";
}
U letters(Src &s, int max, bool lines = true) {
	U u;
	int n = s.grown(0, max, max * 20);
	for (int i = 0; i < n; i++) {
		switch (s.draw(lines ? 9 : 8)) {
			case 0:
				u += U',';
				break;
			case 1:
				u += U'"';
				break;
			case 2:
				u += U' ';
				break;
			case 3:
				u += (char32_t)s.pick({ 0xe9, 0x416, 0x4e2d, 0x1f600, 0xff });
				break;
			case 8:
				u += U'\n';
				break;
			default:
				u += U'a' + s.draw(5);
		}
	}
	return u;
}
B bytes(Src &s, int max) {
	B b;
	int n = s.one_in(12) ? s.grown(0, max * 8, 5000) : s.size(0, max);
	for (int i = 0; i < n; i++) {
		b += (char)s.pick({ 0, 10, 13, 32, 255, 65, 66, 200 });
	}
	return b;
}
// what get_line gives for the bytes from pos on; moves pos
B ref_line(const B &f, size_t &pos, bool &eof) {
	B o;
	while (pos < f.size()) {
		char ch = f[pos++];
		if (ch == '\n' || ch == 0) {
			return o;
		}
		if (ch != '\r') {
			o += ch;
		}
	}
	eof = true;
	return o;
}
std::vector<U> ref_csv(const U &line, char32_t delim) {
	std::vector<U> out(1);
	bool q = false;
	for (size_t i = 0; i < line.size(); i++) {
		if (line[i] == '"') {
			if (q && i + 1 < line.size() && line[i + 1] == '"') {
				out.back() += '"';
				i++;
			} else {
				q = !q;
			}
		} else if (!q && line[i] == delim) {
			out.emplace_back();
		} else {
			out.back() += line[i];
		}
	}
	return out;
}
} // namespace

VT_PROP(P15, file_history, 12000) {
	// one file object used on three files against byte strings with a position
	Scratch sc(c);
	static const char *names[] = { "a", "b \xc3\xa9.txt", "c" };
	std::map<int, B> disk; // what the files contain
	bool backup = false;
	FileAccess::set_backup_save(false);
	struct Guard {
		~Guard() { FileAccess::set_backup_save(false); }
	} guard;
	FileAccess fa;
	int open = -1, mode = 0;
	bool pending = false; // written beside the file, not yet moved there
	B body; // of the open file
	size_t pos = 0;
	bool eof = false, swap = false;
	int last = 0; // 1 read, 2 written: C asks for a seek between the two
	auto leave = [&]() {
		if (open >= 0 && mode != FileAccess::READ) {
			disk[open] = body;
		}
		open = -1;
		pending = false;
	};
	auto put = [&](const B &x) {
		if (!x.empty()) { // storing nothing does not make the file longer
			body.resize(std::max(body.size(), pos), 0);
			body.replace(pos, x.size(), x);
		}
		pos += x.size();
		last = 2;
	};
	auto turn = [&](int to) {
		if (last && last != to) {
			fa.seek(pos);
			eof = false;
		}
	};
	auto rd = [&](size_t n) {
		B o = body.substr(std::min(pos, body.size()), n);
		pos += o.size();
		if (o.size() < n) {
			eof = true;
		}
		last = 1;
		return o;
	};
	auto num = [&](size_t n) {
		uint64_t v = 0;
		for (size_t i = 0; i < n; i++) { // a byte that is not there counts as 0
			B o = rd(1);
			uint64_t x = o.empty() ? 0 : (uint8_t)o[0];
			v |= x << (8 * (swap ? n - 1 - i : i));
		}
		return v;
	};
	auto enc = [&](uint64_t v, size_t n) {
		B o;
		for (size_t i = 0; i < n; i++) {
			o += (char)(v >> (8 * (swap ? n - 1 - i : i)));
		}
		return o;
	};
	int steps = s.grown(1, 40, 240), io = 0;
	for (int k = 0; k < steps; k++) {
		int op = (int)s.draw(24);
		bool can_r = open >= 0 && mode != FileAccess::WRITE, can_w = open >= 0 && mode != FileAccess::READ;
		if (open < 0 && op > 2) {
			op = 0;
		}
		switch (op) {
			case 0:
			case 1: {
				int i = (int)s.draw(3), m = s.pick({ 1, 2, 3, 7 });
				bool close_first = s.flag();
				c.note("%sopen(%d,%d);", close_first ? "close;" : "", i, m);
				if (close_first) {
					fa.close();
				}
				leave();
				bool there = disk.count(i) != 0;
				Error e = s.flag() ? fa.open(S(names[i]), m) : fa.reopen(S(names[i]), m);
				if (!there && (m == 1 || m == 3)) {
					c.check(e == ERR_FILE_NOT_FOUND && !fa.is_open(), "opening a missing file: error %d, open %d", e, fa.is_open());
					break;
				}
				c.check(e == OK && fa.is_open(), "opening a file: error %d", e);
				c.check(utf(fa.get_path()) == names[i], "get_path");
				open = i;
				mode = m;
				body = m == 1 || m == 3 ? disk[i] : B();
				pending = backup && m == 2;
				if (!pending && (m == 2 || m == 7)) {
					disk[i] = B();
				}
				pos = 0;
				eof = false;
				last = 0;
				break;
			}
			case 2:
				if (s.flag()) {
					c.note("close;");
					fa.close();
					leave();
					c.check(!fa.is_open(), "open after close");
				} else if (open < 0) {
					backup = s.flag();
					c.note("backup_save=%d;", backup);
					FileAccess::set_backup_save(backup);
					Error e = fa.open("no/such/directory", FileAccess::WRITE);
					c.check(e != OK && !fa.is_open(), "a file in a missing directory was opened");
					mkdir("sub", 0755);
					e = fa.open("sub", FileAccess::READ);
					c.check(e != OK && !fa.is_open(), "a directory was opened as a file");
				}
				break;
			case 3:
			case 4: {
				size_t p = s.draw(body.size() + 3);
				c.note("seek(%zu);", p);
				fa.seek(p);
				pos = p;
				eof = false;
				last = 0;
				break;
			}
			case 5: {
				size_t p = s.draw(body.size() + 1);
				c.note("seek_end(-%zu);", p);
				fa.seek_end(-(int64_t)p);
				pos = body.size() - p;
				eof = false;
				last = 0;
				break;
			}
			case 6:
				if (s.flag()) {
					fa.set_endian_swap(swap = s.flag());
					c.check(fa.get_endian_swap() == swap, "get_endian_swap");
					c.note("swap=%d;", swap);
				}
				if (open >= 0 && last == 2 && s.flag()) {
					c.note("flush;");
					fa.flush();
					last = 0;
					fa.seek(pos);
					eof = false;
					bool ok;
					B now = slurp(B(names[open]) + (pending ? ".tmp" : ""), &ok);
					c.check(ok && now == body, "after flush the file holds %s, expected %s", show(now).c_str(), show(body).c_str());
				}
				break;
			case 7:
			case 8:
			case 9:
			case 10:
			case 11:
			case 12:
			case 13: {
				if (!can_w) {
					break;
				}
				turn(2);
				io++;
				uint64_t v = s.draw(4) ? s.draw(0xffffffff) * 0x100000001ull ^ s.draw(1 << 20) : s.draw(3);
				c.note("store %d;", op);
				switch (op) {
					case 7:
						fa.store_8(v);
						put(enc(v & 0xff, 1));
						break;
					case 8:
						fa.store_16(v);
						put(enc(v & 0xffff, 2));
						break;
					case 9:
						if (s.flag()) {
							fa.store_32(v);
							put(enc(v & 0xffffffff, 4));
						} else {
							fa.store_64(v);
							put(enc(v, 8));
						}
						break;
					case 10: {
						double d = s.sint(1000) / 8.0;
						float f = (float)d;
						uint64_t bits = 0;
						if (s.flag()) {
							fa.store_double(d);
							memcpy(&bits, &d, 8);
							put(enc(bits, 8));
						} else {
							s.flag() ? fa.store_float(f) : fa.store_real(f);
							memcpy(&bits, &f, 4);
							put(enc(bits, 4));
						}
						break;
					}
					case 11: {
						B b = bytes(s, 40);
						if (s.flag()) {
							Vector<uint8_t> vec;
							for (char ch : b) {
								vec.push_back((uint8_t)ch);
							}
							fa.store_buffer_vec(vec);
						} else {
							fa.store_buffer((const uint8_t *)b.data(), b.size());
						}
						put(b);
						break;
					}
					case 12: {
						String t = mk(letters(s, 10));
						if (s.flag()) {
							fa.store_string(t);
							put(utf(t));
						} else {
							fa.store_line(t);
							put(utf(t) + "\n");
						}
						break;
					}
					default: {
						String t = mk(letters(s, 10));
						fa.store_pascal_string(t);
						B u = utf(t);
						put(enc(u.size(), 4) + u);
					}
				}
				break;
			}
			case 14:
			case 15:
			case 16:
			case 17:
			case 18:
			case 19: {
				if (!can_r) {
					break;
				}
				turn(1);
				io++;
				c.note("get %d;", op);
				switch (op) {
					case 14:
						same(c, fa.get_8(), (int64_t)num(1), "get_8");
						break;
					case 15:
						same(c, fa.get_16(), (int64_t)num(2), "get_16");
						break;
					case 16:
						if (s.flag()) {
							same(c, fa.get_32(), (int64_t)num(4), "get_32");
						} else {
							same(c, (int64_t)fa.get_64(), (int64_t)num(8), "get_64");
						}
						break;
					case 17: {
						int n = s.grown(0, 30, 3000);
						B b(n + 8, '?');
						uint64_t got = fa.get_buffer((uint8_t *)&b[0], n);
						bool was = eof;
						B want = rd(n);
						if (n == 0) {
							eof = was;
						}
						same(c, (int64_t)got, (int64_t)want.size(), "get_buffer");
						c.check(b.substr(0, got) == want && b.substr(n) == "????????", "get_buffer gives %s, expected %s", show(b).c_str(), show(want).c_str());
						break;
					}
					case 18: {
						String t = fa.get_line();
						B want = ref_line(body, pos, eof);
						last = 1;
						String w;
						w.parse_utf8(want.c_str());
						c.check(t == w, "get_line gives %s, expected %s", sh(t).c_str(), show(want).c_str());
						break;
					}
					default: {
						double d = fa.get_double();
						uint64_t bits = num(8);
						c.check(memcmp(&d, &bits, 8) == 0, "get_double");
					}
				}
				break;
			}
			case 20:
				if (mode == FileAccess::READ) {
					c.note("store in a file opened for reading;");
					c.errors();
					fa.store_8('x');
					c.check(c.errors() > 0, "a file opened for reading was written without complaint");
					fa.seek(pos);
					eof = false;
					last = 0;
				}
				break;
			default: {
				same(c, (int64_t)fa.get_position(), (int64_t)pos, "get_position");
				same(c, fa.eof_reached(), eof, "eof_reached");
				if (last != 2 || s.flag()) {
					same(c, (int64_t)fa.get_len(), (int64_t)body.size(), "get_len");
					last = last == 2 ? 0 : last;
					if (last == 0) {
						fa.seek(pos);
						eof = false;
					}
				}
			}
		}
		if (op != 20) {
			c.no_errors("a step");
		}
	}
	c.nt(io >= 3);
	fa.close();
	leave();
	c.no_errors("the end");
	for (int i = 0; i < 3; i++) {
		bool ok;
		B now = slurp(names[i], &ok);
		c.check(ok == (disk.count(i) != 0), "file %d %s", i, ok ? "exists" : "is missing");
		c.check(!ok || now == disk[i], "file %d holds %s, expected %s", i, show(now).c_str(), show(disk[i]).c_str());
		bool tmp;
		slurp(B(names[i]) + ".tmp", &tmp);
		c.check(!tmp, "a temporary file is left");
		same(c, FileAccess::exists(S(names[i])), ok, "exists");
		same(c, fa.file_exists(S(names[i])), ok, "file_exists");
	}
}

VT_PROP(P15, text_files, 12000) {
	Scratch sc(c);
	// rows of a table survive the file
	char32_t delim = (char32_t)s.pick({ (int)',', (int)';', (int)'\t', 0xe9, 0x4e2d });
	String d = mk(U(1, delim));
	std::vector<std::vector<U>> rows(s.size(1, 4));
	FileAccess *f = FileAccess::create_and_open("t.csv", FileAccess::WRITE);
	c.check(f, "cannot create a file");
	for (auto &r : rows) {
		r.resize(s.size(0, 4));
		Vector<String> v;
		for (auto &x : r) {
			x = letters(s, 8);
			if (s.one_in(4)) {
				x.insert(s.draw(x.size() + 1), 1, delim);
			}
			v.push_back(mk(x));
			c.note("%s", sh(x).c_str());
		}
		c.note("|");
		f->store_csv_line(v, d);
		if (r.empty()) {
			r.resize(1);
		}
	}
	memdelete(f);
	c.nt(rows.size() > 1 && rows[0].size() > 1);
	Error err = FAILED;
	f = FileAccess::create_and_open("t.csv", FileAccess::READ, &err);
	c.check(f && err == OK, "cannot open a file");
	for (auto &r : rows) {
		Vector<String> v = f->get_csv_line(d);
		same(c, v.size(), r.size(), "columns read back");
		for (int i = 0; i < v.size(); i++) {
			same(c, v[i], r[i], "value read back");
		}
	}
	c.check(!f->eof_reached(), "the end was reached early");
	f->get_csv_line(d);
	c.check(f->eof_reached(), "the end was not reached");
	memdelete(f);
	// rows as others may write them
	U line = letters(s, 14, false);
	if (std::count(line.begin(), line.end(), U'"') % 2) {
		line += U'"';
	}
	spit("u.csv", utf(mk(line)) + (s.flag() ? "\r\n" : s.flag() ? "\n" : ""));
	f = FileAccess::create_and_open("u.csv", FileAccess::READ);
	Vector<String> v = f->get_csv_line();
	std::vector<U> want = ref_csv(line, U',');
	same(c, v.size(), want.size(), "columns");
	for (int i = 0; i < v.size(); i++) {
		same(c, v[i], want[i], "value");
	}
	memdelete(f);
	// lines, tokens, whole texts
	std::vector<U> lines(s.size(0, 6));
	f = FileAccess::create_and_open("l", FileAccess::WRITE);
	U all, nocr;
	for (auto &l : lines) {
		l = letters(s, s.one_in(6) ? 700 : 8, false);
		if (s.one_in(4)) {
			f->store_string(mk(l) + "\r\n");
			all += l + U"\r\n";
		} else {
			f->store_line(mk(l));
			all += l + U"\n";
		}
	}
	f->close();
	memdelete(f);
	nocr = all;
	nocr.erase(std::remove(nocr.begin(), nocr.end(), U'\r'), nocr.end());
	f = FileAccess::create_and_open("l", FileAccess::READ);
	for (auto &l : lines) {
		same(c, f->get_line(), l, "get_line");
	}
	same(c, f->get_line(), U(), "line after the last");
	c.check(f->eof_reached(), "no end after the last line");
	f->seek(0);
	std::vector<U> toks;
	bool in = false;
	for (char32_t ch : all) {
		if (ch <= ' ') {
			in = false;
		} else {
			if (!in) {
				toks.emplace_back();
			}
			in = true;
			toks.back() += ch;
		}
	}
	for (auto &t : toks) {
		same(c, f->get_token(), t, "get_token");
	}
	same(c, f->get_token(), U(), "token after the last");
	f->seek(0);
	same(c, f->get_as_utf8_string(), nocr, "get_as_utf8_string");
	f->seek(0);
	same(c, f->get_as_utf8_string(false), all, "get_as_utf8_string with carriage returns");
	memdelete(f);
	same(c, FileAccess::get_file_as_string("l"), all, "get_file_as_string");
	U text = letters(s, 12);
	err = FAILED;
	FileAccess::write_file("w", mk(text), &err);
	c.check(err == OK, "write_file");
	same(c, FileAccess::get_file_as_string("w", &err), text, "write_file and get_file_as_string");
	c.check(err == OK, "get_file_as_string");
	B raw = bytes(s, 60);
	Vector<uint8_t> vec;
	for (char ch : raw) {
		vec.push_back((uint8_t)ch);
	}
	FileAccess::write_file_buffer("w", vec, &err);
	Vector<uint8_t> back = FileAccess::get_file_as_array("w", &err);
	c.check(err == OK && B((const char *)back.ptr(), back.size()) == raw && slurp("w") == raw, "write_file_buffer and get_file_as_array");
	FileAccess::get_file_as_array("missing", &err);
	c.check(err == ERR_FILE_NOT_FOUND, "get_file_as_array of a missing file");
	c.check(!FileAccess::exists("missing") && FileAccess::exists("w"), "exists");
	c.no_errors("the texts");
	U ps[3] = { letters(s, 10), letters(s, 10), letters(s, 300) };
	f = FileAccess::create_and_open("p", FileAccess::WRITE_READ);
	bool sw = s.flag();
	f->set_endian_swap(sw);
	for (auto &p : ps) {
		f->store_pascal_string(mk(p));
	}
	f->seek(0);
	for (auto &p : ps) {
		same(c, f->get_pascal_string(), p, "get_pascal_string");
	}
	memdelete(f);
	uint32_t perm = s.draw(0200) | 0400;
	c.check(FileAccess::set_unix_permissions("w", perm) == OK && FileAccess::get_unix_permissions("w") == perm, "permissions");
	struct stat st;
	c.check(stat("w", &st) == 0 && (st.st_mode & 0777) == perm && FileAccess::get_modified_time("w") == (uint64_t)st.st_mtime, "permissions and time of a file");
	c.no_errors("the rest");
}

namespace {
// a tree of files: path -> 'd', 'f' + content or 'l' + target
typedef std::map<B, B> Tree;
void look(const B &at, const B &rel, Tree &t) {
	DIR *h = opendir((at + (rel.empty() ? "" : "/" + rel)).c_str());
	if (!h) {
		return;
	}
	while (dirent *e = readdir(h)) {
		B n = e->d_name;
		if (n == "." || n == "..") {
			continue;
		}
		B r = rel.empty() ? n : rel + "/" + n, p = at + "/" + r;
		struct stat st;
		if (lstat(p.c_str(), &st)) {
			continue;
		}
		if (S_ISDIR(st.st_mode)) {
			t[r] = "d";
			look(at, r, t);
		} else if (S_ISLNK(st.st_mode)) {
			char b[4096];
			ssize_t k = readlink(p.c_str(), b, sizeof b);
			t[r] = "l" + B(b, k > 0 ? k : 0);
		} else {
			t[r] = "f" + slurp(p);
		}
	}
	closedir(h);
}
B show(const Tree &t) {
	B o;
	for (auto &x : t) {
		o += x.first + "=" + x.second.substr(0, 20) + " ";
	}
	return o;
}
B parent(const B &p) {
	size_t i = p.rfind('/');
	return i == B::npos ? "" : p.substr(0, i);
}
bool under(const B &p, const B &d) { return d.empty() || p == d || p.compare(0, d.size() + 1, d + "/") == 0; }
} // namespace

VT_PROP(P15, directory_history, 6000) {
	// a tree changed through DirAccess against a map of paths
	Scratch sc(c);
	B root = sc.dir + "/root", out = sc.dir + "/outside";
	mkdir(root.c_str(), 0755);
	mkdir(out.c_str(), 0755);
	mkdir((out + "/keep").c_str(), 0755);
	spit(out + "/keep/me", "safe");
	Tree outside, m, got;
	look(out, "", outside);
	static const char *names[] = { "a", "b", ".h", "\xc3\xa9 x", "dir" };
	DirAccess da;
	c.check(da.open(S(root)) == OK && utf(da.get_current_dir()) == root, "open");
	B cur; // the current directory below root
	auto is_dir = [&](const B &p) { return p.empty() || (m.count(p) && m[p] == "d"); };
	// to what a path leads when links are followed ('d', 'f' or 0)
	auto leads = [&](const B &p) -> char {
		if (p.empty()) {
			return 'd';
		}
		if (!m.count(p)) {
			return 0;
		}
		if (m[p][0] == 'l') {
			return m[p] == "l" + out ? 'd' : m[p] == "l" + out + "/keep/me" ? 'f' : 0;
		}
		return m[p][0];
	};
	// a path below a directory that exists, and how it is named
	auto some = [&](B &arg) {
		std::vector<B> dirs = { "" };
		for (auto &x : m) {
			if (x.second == "d") {
				dirs.push_back(x.first);
			}
		}
		B d = dirs[s.draw(dirs.size())];
		B n = names[s.draw(5)];
		B full = d.empty() ? n : d + "/" + n;
		arg = root + "/" + full;
		if (under(full, cur) && full != cur && s.flag()) {
			arg = cur.empty() ? full : full.substr(cur.size() + 1);
		}
		return full;
	};
	int steps = s.grown(1, 25, 150), changes = 0;
	for (int k = 0; k < steps; k++) {
		B arg, p = some(arg);
		switch (s.draw(13)) {
			case 0:
			case 1: {
				c.note("make_dir(%s);", arg.c_str());
				Error e = da.make_dir(S(arg));
				c.check(e == (m.count(p) ? ERR_ALREADY_EXISTS : OK), "make_dir: error %d", e);
				if (!m.count(p)) {
					m[p] = "d";
					changes++;
				}
				break;
			}
			case 2: {
				B more = p, marg = arg;
				int n = s.size(1, 3);
				for (int i = 0; i < n; i++) {
					B x = names[s.draw(5)];
					more += "/" + x;
					marg += (s.one_in(4) ? "/." : "") + B("/") + x;
				}
				c.note("make_dir_recursive(%s);", marg.c_str());
				// on the way everything has to be a directory
				bool fine = true;
				std::vector<B> need;
				for (B q = more; !q.empty(); q = parent(q)) {
					need.push_back(q);
				}
				for (auto &q : need) {
					if (m.count(q) && leads(q) != 'd') {
						fine = false;
					}
					if (m.count(q) && m[q][0] == 'l') {
						fine = false;
					}
				}
				if (!fine) {
					break; // would lead out of the tree or through a file
				}
				Error e = da.make_dir_recursive(S(marg));
				c.check(e == OK, "make_dir_recursive: error %d", e);
				for (auto &q : need) {
					m[q] = "d";
				}
				changes++;
				break;
			}
			case 3:
			case 4: {
				if (leads(p) == 'd' || (m.count(p) && m[p][0] == 'l')) {
					break;
				}
				B b = bytes(s, 8);
				c.note("file %s;", p.c_str());
				spit(root + "/" + p, b);
				m[p] = "f" + b;
				changes++;
				break;
			}
			case 5: {
				int w = (int)s.draw(4);
				B target = w == 0 ? out : w == 1 ? out + "/keep/me" : w == 2 ? B("nowhere") : "/" + B(s.pick({ 10, 255, 300 }), 'n');
				c.note("create_link(%s, %s);", target.substr(0, 40).c_str(), arg.c_str());
				Error e = da.create_link(S(target), S(arg));
				c.check((e == OK) == !m.count(p), "create_link: error %d", e);
				if (!m.count(p)) {
					m[p] = "l" + target;
					changes++;
				}
				break;
			}
			case 6: {
				c.note("remove(%s);", arg.c_str());
				Error e = da.remove(S(arg));
				bool can = m.count(p);
				if (can && m[p] == "d") {
					for (auto &x : m) {
						can = can && (x.first == p || !under(x.first, p));
					}
				}
				c.check((e == OK) == can, "remove of %s: error %d", m.count(p) ? m[p].substr(0, 1).c_str() : "nothing", e);
				if (can) {
					if (under(cur, p) && !cur.empty()) {
						c.check(da.change_dir(S(root)) == OK, "change_dir to the root");
						cur = "";
					}
					m.erase(p);
					changes++;
				}
				break;
			}
			case 7: {
				B arg2, q = some(arg2);
				if (!m.count(p) || p == q || under(q, p) || under(cur, p)) {
					break;
				}
				if (m.count(q)) {
					if ((m[p] == "d") != (m[q] == "d") || under(cur, q)) {
						break;
					}
				}
				bool can = true;
				if (m.count(q) && m[q] == "d") {
					for (auto &x : m) {
						can = can && (x.first == q || !under(x.first, q));
					}
				}
				c.note("rename(%s, %s);", arg.c_str(), arg2.c_str());
				Error e = da.rename(S(arg), S(arg2));
				c.check((e == OK) == can, "rename: error %d", e);
				if (can) {
					Tree moved;
					for (auto it = m.begin(); it != m.end();) {
						if (under(it->first, p)) {
							moved[q + it->first.substr(p.size())] = it->second;
							it = m.erase(it);
						} else {
							++it;
						}
					}
					for (auto &x : moved) {
						m[x.first] = x.second;
					}
					changes++;
				}
				break;
			}
			case 8: {
				// where are we
				B t;
				if (s.flag() && !cur.empty()) {
					c.note("change_dir(..);");
					c.check(da.change_dir("..") == OK, "change_dir to the parent");
					cur = parent(cur);
				} else {
					c.note("change_dir(%s);", arg.c_str());
					bool can = m.count(p) && m[p] == "d";
					if (m.count(p) && m[p] != "d") {
						break;
					}
					Error e = da.change_dir(S(arg));
					c.check((e == OK) == can, "change_dir: error %d", e);
					if (can) {
						cur = p;
					}
				}
				B at = utf(da.get_current_dir());
				c.check(at == root + (cur.empty() ? "" : "/" + cur), "the current directory is %s", at.c_str());
				char now[4096];
				c.check(getcwd(now, sizeof now) && sc.dir == now, "the directory of the process has changed");
				break;
			}
			case 9: {
				c.note("erase_contents_recursive;");
				Error e = da.erase_contents_recursive();
				c.check(e == OK, "erase_contents_recursive: error %d", e);
				for (auto it = m.begin(); it != m.end();) {
					it = it->first != cur && under(it->first, cur) ? m.erase(it) : std::next(it);
				}
				changes++;
				break;
			}
			case 10: {
				if (!m.count(p) || m[p] != "d") {
					break;
				}
				B arg2, q = some(arg2);
				bool links = s.flag();
				bool fine = !under(q, p) && !under(p, q) && (!m.count(q) || m[q] == "d");
				Tree add;
				for (auto &x : m) {
					if (x.first != p && under(x.first, p)) {
						B to = q + x.first.substr(p.size());
						if (m.count(to) && (m[to][0] == 'l' || m[to][0] != x.second[0])) {
							fine = false;
						}
						if (x.second[0] == 'l') {
							if (m.count(to) || (!links && leads(x.first) != 'f')) {
								fine = false;
							}
							add[to] = links ? x.second : "fsafe";
						} else {
							add[to] = x.second;
						}
					}
				}
				if (!fine) {
					break;
				}
				c.note("copy_dir(%s, %s, %d);", arg.c_str(), q.c_str(), links);
				Error e = da.copy_dir(S(arg), S(root + "/" + q), -1, links);
				c.check(e == OK, "copy_dir: error %d", e);
				m[q] = "d";
				for (auto &x : add) {
					m[x.first] = x.second;
				}
				c.check(utf(da.get_current_dir()) == root + (cur.empty() ? "" : "/" + cur), "the current directory after copy_dir");
				changes++;
				break;
			}
			case 11: {
				B arg2, q = some(arg2);
				if (leads(p) != 'f' || p == q || (m.count(q) && m[q][0] != 'f')) {
					break;
				}
				int mode = s.flag() ? -1 : s.pick({ 0600, 0640, 0755 });
				c.note("copy(%s, %s);", p.c_str(), q.c_str());
				Error e = da.copy(S(root + "/" + p), S(root + "/" + q), mode);
				c.check(e == OK, "copy: error %d", e);
				struct stat st;
				c.check(mode == -1 || (stat((root + "/" + q).c_str(), &st) == 0 && (int)(st.st_mode & 0777) == mode), "the permissions of a copy");
				m[q] = m[p][0] == 'l' ? "fsafe" : m[p];
				changes++;
				break;
			}
			default: {
				// asking
				same(c, da.file_exists(S(arg)), leads(p) == 'f', "file_exists");
				same(c, da.dir_exists(S(arg)), leads(p) == 'd', "dir_exists");
				same(c, DirAccess::exists(S(root + "/" + p)), leads(p) == 'd', "exists");
				same(c, DirAccess::exists(S("root/" + p)), leads(p) == 'd', "exists with a relative path");
				same(c, da.is_link(S(arg)), m.count(p) && m[p][0] == 'l', "is_link");
				B l = utf(da.read_link(S(arg)));
				c.check(l == (m.count(p) && m[p][0] == 'l' ? m[p].substr(1) : ""), "read_link gives %s", l.c_str());
				if (leads(p) == 'd' && m[p] == "d") {
					c.check(utf(DirAccess::get_full_path(S("root/" + p))) == root + "/" + p, "get_full_path");
				}
				bool skip = s.flag();
				std::map<B, char> listed;
				c.check(da.list_dir_begin(skip) == OK, "list_dir_begin");
				int dots = 0;
				for (String n = da.get_next(); !n.empty(); n = da.get_next()) {
					B name = utf(n);
					if (name == "." || name == "..") {
						dots++;
						c.check(da.current_is_special_dir() && da.current_is_dir() && !da.current_is_hidden(), "%s is not seen as special", name.c_str());
						continue;
					}
					c.check(!listed.count(name), "%s is listed twice", name.c_str());
					listed[name] = da.current_is_dir() ? 'd' : 'f';
					c.check(!da.current_is_special_dir() && da.current_is_file() == !da.current_is_dir() && da.current_is_hidden() == (name[0] == '.'), "what %s is", name.c_str());
				}
				da.list_dir_end();
				same(c, dots, skip ? 0 : 2, "special entries");
				size_t n = 0;
				for (auto &x : m) {
					if (parent(x.first) == cur && x.first != cur) {
						n++;
						B name = cur.empty() ? x.first : x.first.substr(cur.size() + 1);
						c.check(listed.count(name) && listed[name] == (leads(x.first) == 'd' ? 'd' : 'f'), "%s is not listed as it is", name.c_str());
					}
				}
				same(c, (int64_t)listed.size(), (int64_t)n, "entries listed");
			}
		}
		got.clear();
		look(root, "", got);
		c.check(got == m, "the tree is %s, expected %s", show(got).c_str(), show(m).c_str());
		got.clear();
		look(out, "", got);
		c.check(got == outside, "something outside has changed: %s", show(got).c_str());
		c.no_errors("a step");
	}
	c.nt(changes >= 4);
}

namespace {
std::vector<B> told; // which files could not be put in place
void tell(const String &p) { told.push_back(utf(p)); }
} // namespace

static void set_home(const B &to) { // setenv never gives its memory back
	static char place[8192] = "HOME=";
	snprintf(place + 5, sizeof place - 5, "%s", to.c_str());
	putenv(place);
}

VT_PROP(P15, holders_and_notices, 6000) {
	// files and directories held by their owners, what is told when a file cannot be put in place, times and drives
	Scratch sc(c);
	struct Guard {
		B home;
		~Guard() {
			FileAccess::set_backup_save(false);
			FileAccess::set_file_close_fail_notify_callback(nullptr);
			set_home(home);
		}
	} guard;
	const char *h = getenv("HOME");
	guard.home = h ? h : "/";
	B name = s.pick({ "a", "b.txt", "\xc3\xa9" });
	B full = sc.dir + "/" + name;
	int n = (int)s.draw(6);
	std::vector<float> fs;
	std::vector<double> ds;
	bool swap = s.flag(), wide = s.flag();
	{
		FileAccessRef f(FileAccess::create_and_open(S(full), FileAccess::WRITE));
		c.check(f && f.is_valid() && !f.is_null() && (FileAccess *)f == f.f, "a file that was opened is not held");
		same(c, f->get_path_absolute(), un(S(full)), "get_path_absolute");
		f->set_endian_swap(swap);
		for (int i = 0; i < n; i++) {
			fs.push_back((float)(s.sint(1000) * 0.37));
			ds.push_back(s.sint(1000) * 0.37);
			f->store_float(fs.back());
			f->store_double(ds.back());
			if (wide) {
				f->store_double(ds.back());
			} else {
				f->store_float(fs.back());
			}
		}
		FileAccessRef g(std::move(f));
		c.check(f.is_null() && !f && g.is_valid(), "a file that was handed on");
		FileAccessRef none(nullptr);
		c.check(none.is_null() && !none.is_valid() && !none, "no file is held");
	} // closed with its holder
	same(c, FileAccess::exists(S(full)), true, "the file is there");
	struct stat st;
	c.check(stat(full.c_str(), &st) == 0 && st.st_size == n * (4 + 8 + (wide ? 8 : 4)), "the file has %lld bytes", (long long)st.st_size);
	{
		FileAccessRef f(FileAccess::create_and_open(S(full), FileAccess::READ));
		c.check(f, "cannot open");
		f->set_endian_swap(swap);
		f->real_is_double = wide;
		for (int i = 0; i < n; i++) {
			float a = f->get_float();
			double d = f->get_double();
			real_t r = f->get_real();
			c.check(a == fs[i] && d == ds[i] && r == (wide ? (real_t)ds[i] : fs[i]), "numbers %d: %g %g %g", i, a, d, r);
		}
	}
	// directories
	{
		DirAccessRef d(DirAccess::create());
		c.check(d && d.is_valid() && !d.is_null() && (DirAccess *)d == d.f, "no directory is held");
		same(c, d->change_dir(S(sc.dir)), OK, "change_dir");
		timespec ts[2] = { { 1000 + (time_t)s.draw(2000000000), 0 }, { 0, 0 } };
		ts[1] = ts[0];
		c.check(utimensat(AT_FDCWD, full.c_str(), ts, 0) == 0, "utimensat");
		same(c, d->get_modified_time(S(name)), ts[0].tv_sec, "the time of a file by its name");
		same(c, d->get_modified_time(S(full)), ts[0].tv_sec, "the time of a file by its path");
		same(c, FileAccess::get_modified_time(S(full)), ts[0].tv_sec, "the time of a file");
		same(c, d->get_current_dir_without_drive(), un(S(sc.dir)), "the directory without its drive");
		same(c, DirAccess::get_filesystem_abspath_for(S(sc.dir + "/./x/../")), un(S(sc.dir)), "get_filesystem_abspath_for of what is not there");
		same(c, d->make_dir("x"), OK, "make_dir");
		same(c, DirAccess::get_filesystem_abspath_for(S(sc.dir + "/x")), un(S(sc.dir + "/x")), "get_filesystem_abspath_for");
		c.check(d->get_space_left() > 0, "no space is left where files are written");
		same(c, d->get_modified_time(S(sc.dir + "/none")), 0, "the time of no file");
		c.errors();
		DirAccessRef e(std::move(d));
		c.check(d.is_null() && e.is_valid(), "a directory that was handed on");
		// drives: the root, the home and the bookmarks, each once and in order
		B home = sc.dir + s.pick({ "/home", "/h\xc3\xa9" });
		c.check(mkdir(home.c_str(), 0755) == 0 && mkdir((home + "/.config").c_str(), 0755) == 0 && mkdir((home + "/.config/gtk-3.0").c_str(), 0755) == 0, "mkdir");
		set_home(home);
		std::set<B> want = { "/", home };
		B marks;
		for (int i = (int)s.draw(4); i > 0; i--) {
			B m = s.pick({ sc.dir, sc.dir + "/x", sc.dir + "/p q", sc.dir + "/\xc3\xa9", home });
			want.insert(m);
			B enc;
			bool coded = s.flag();
			for (char ch : m) {
				enc += ch == ' ' ? B("%20") : ch == '\xc3' && coded ? B("%C3") : ch == '\xa9' && coded ? B("%a9") : B(1, ch);
			}
			marks += "file://" + enc + (s.flag() ? " Name" : "") + "\n";
			if (s.flag()) {
				marks += s.pick({ "smb://elsewhere/y\n", "\n", "file://\n", "file:// \n" });
			}
		}
		spit(home + "/.config/gtk-3.0/bookmarks", marks);
		std::vector<B> drives;
		for (int i = 0; i < e->get_drive_count(); i++) {
			drives.push_back(utf(e->get_drive(i)));
		}
		std::set<B> got(drives.begin(), drives.end());
		c.check(got.size() == drives.size() && std::is_sorted(drives.begin(), drives.end()), "drives are listed twice or out of order");
		for (auto &x : want) {
			c.check(got.count(x), "drive %s is missing", x.c_str());
		}
		c.check(e->drives_are_shortcuts(), "drives are no shortcuts");
		size_t best = 0;
		for (auto &x : drives) {
			if (sc.dir.compare(0, x.size(), x) == 0) {
				best = std::max(best, x.size());
			}
		}
		int cur = e->get_current_drive();
		c.check(cur >= 0 && cur < (int)drives.size() && drives[cur].size() == best && sc.dir.compare(0, best, drives[cur]) == 0, "the current drive is %d", cur);
	}
	// a file that cannot be put in place is told, its old content and the new one both remain
	told.clear();
	FileAccess::set_file_close_fail_notify_callback(tell);
	FileAccess::set_backup_save(true);
	bool blocked = s.flag();
	B at = sc.dir + "/put";
	{
		FileAccess f;
		same(c, FileAccess::exists(S(at)), false, "nothing is there yet");
		Error err = OK;
		FileAccessRef r(FileAccess::create_and_open(S(at), FileAccess::WRITE, &err));
		c.check(r && err == OK, "cannot create");
		r->store_8('n');
		if (blocked) {
			c.check(mkdir(at.c_str(), 0755) == 0, "mkdir");
		}
		c.errors();
	}
	int errs = c.errors();
	if (blocked) {
		c.check(told.size() == 1 && told[0] == at && errs > 0, "a file that cannot be put in place is told %d times", (int)told.size());
		c.check(stat((at + ".tmp").c_str(), &st) == 0 && st.st_size == 1, "what was written is lost");
	} else {
		c.check(told.empty() && errs == 0, "a file in place is told as missing");
		c.check(stat(at.c_str(), &st) == 0 && st.st_size == 1 && stat((at + ".tmp").c_str(), &st) != 0, "the file is not in place");
	}
	c.nt(n > 1);
	c.no_errors("holders");
}
