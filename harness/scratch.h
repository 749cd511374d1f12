// A scratch directory for the cases that touch files, and the loss of privileges while such a case runs.
#pragma once
#include "vt.h"
#include <dirent.h>
#include <fcntl.h>
#include <grp.h>
#include <stdlib.h>
#include <sys/stat.h>
#include <unistd.h>
#include <string>

using vt::Ctx;

namespace {
typedef std::string B;
const uid_t NOBODY = 65534;

void wipe(const B &d) { // only ever given directories made by mkdtemp below
	DIR *h = opendir(d.c_str());
	if (h) {
		while (dirent *e = readdir(h)) {
			B n = e->d_name;
			if (n == "." || n == "..") {
				continue;
			}
			B p = d + "/" + n;
			struct stat st;
			if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) {
				wipe(p);
			} else {
				unlink(p.c_str());
			}
		}
		closedir(h);
	}
	rmdir(d.c_str());
}

// the scratch directory of a case, and the loss of privileges while the case runs
struct Scratch {
	B dir;
	bool dropped = false;
	Scratch(Ctx &c) {
		const char *base = "/tmp";
		const char *own = getenv("VT_SCRATCH");
		B t;
		for (const char *b : { own, base }) {
			if (!b) {
				continue;
			}
			t = B(b) + "/vtfs.XXXXXX";
			if (!mkdtemp(&t[0])) {
				continue;
			}
			if (geteuid() != 0) {
				dir = t;
				break;
			}
			if (chown(t.c_str(), NOBODY, NOBODY) == 0 && drop()) {
				if (access_ok(t) && chdir(t.c_str()) == 0) {
					dir = t;
					break;
				}
				regain();
			}
			rmdir(t.c_str());
		}
		if (dir.empty()) {
			c.discard(); // privileges cannot be given up here
		}
		if (chdir(dir.c_str()) != 0) {
			c.discard();
		}
	}
	static bool access_ok(const B &t) {
		B p = t + "/probe";
		int f = ::open(p.c_str(), O_CREAT | O_RDWR, 0644);
		if (f < 0) {
			return false;
		}
		::close(f);
		return unlink(p.c_str()) == 0;
	}
	bool drop() {
		static bool groups = false;
		if (!groups) {
			groups = setgroups(0, nullptr) == 0;
		}
		if (setegid(NOBODY) != 0) {
			return false;
		}
		if (seteuid(NOBODY) != 0) {
			(void)!setegid(0);
			return false;
		}
		return dropped = true;
	}
	void regain() {
		if (dropped) {
			(void)!seteuid(0);
			(void)!setegid(0);
			dropped = false;
		}
	}
	~Scratch() {
		if (!dir.empty()) {
			(void)!chdir("/");
			wipe(dir);
		}
		regain();
	}
};
} // namespace
