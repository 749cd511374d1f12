// P20: addresses and sockets against the system's own address functions and a pair of byte queues. P21: processes against a
// helper program with known output and exit status.
#include "sfw.h"
#include "str.h"
#include "vt.h"

#include <arpa/inet.h>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <grp.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>

#include <deque>
#include <set>
#include <string>
#include <vector>

using namespace vt;

namespace {
typedef std::string B;

B of(const String &s) {
	CharString u = s.utf8();
	return B(u.get_data() ? u.get_data() : "", u.length());
}
String st(const B &b) { return String::utf8(b.c_str(), (int)b.size()); }
B quoted(const B &b) {
	B o = "\"";
	for (unsigned char ch : b) {
		if (o.size() > 160) {
			o += "...";
			break;
		}
		char t[8];
		snprintf(t, sizeof t, ch >= 32 && ch < 127 ? "%c" : "\\x%02x", ch);
		o += t;
	}
	return o + "\"";
}

std::set<int> open_fds() {
	std::set<int> o;
	for (int i = 0; i < 256; i++) {
		if (fcntl(i, F_GETFD) >= 0) {
			o.insert(i);
		}
	}
	return o;
}

// signals sent while a case watches: only this process's own living children really get them
bool g_watch = false;
std::vector<std::pair<long, int>> g_stray;
} // namespace

extern "C" int kill(pid_t pid, int sig) {
	if (g_watch && sig != 0) {
		siginfo_t si;
		memset(&si, 0, sizeof si);
		if (pid <= 1 || waitid(P_PID, pid, &si, WEXITED | WNOHANG | WNOWAIT) != 0) {
			g_stray.push_back({ pid, sig });
			errno = ESRCH;
			return -1;
		}
	}
	return (int)syscall(SYS_kill, pid, sig);
}

// ---------------------------------------------------------------- P20

namespace {
B gen_ip4(Src &s) {
	static const uint32_t edge[] = { 0, 0x7f000001, 0x0a000000, 0x0affffff, 0x09ffffff, 0x0b000000, 0xac100000, 0xac1fffff, 0xac0fffff, 0xac200000, 0xc0a80000, 0xc0a8ffff, 0xc0a7ffff, 0xc0a90000, 0xffffffff, 0x01020304, 0x08080808 };
	uint32_t v = s.flag() ? edge[s.draw(sizeof edge / sizeof *edge)] : (uint32_t)s.draw(1ULL << 32);
	char b[32];
	snprintf(b, sizeof b, "%u.%u.%u.%u", v >> 24, v >> 16 & 255, v >> 8 & 255, v & 255);
	return b;
}
B gen_ip6(Src &s) {
	static const char *edge[] = { "::", "::1", "fe80::1", "fec0::7", "febf:ffff::", "fe7f::1", "ff00::1", "::ffff:127.0.0.1", "::ffff:10.1.2.3", "::ffff:11.1.2.3", "::ffff:172.16.5.5", "::ffff:192.168.0.9", "2001:db8::ff00:42:8329", "1:2:3:4:5:6:7:8", "::2", "1::1", "::fffe:10.0.0.1" };
	if (s.flag()) {
		return edge[s.draw(sizeof edge / sizeof *edge)];
	}
	B o;
	for (int i = 0; i < 8; i++) {
		char b[8];
		snprintf(b, sizeof b, "%x", (unsigned)(s.flag() ? 0 : s.draw(65536)));
		o += (i ? ":" : "") + B(b);
	}
	return o;
}
B gen_bad(Src &s, bool v6) {
	B o = v6 ? gen_ip6(s) : gen_ip4(s);
	switch (s.draw(6)) {
		case 0: return "";
		case 1: return o + (v6 ? ":g" : ".7");
		case 2: return "x" + o;
		case 3: return v6 ? gen_ip4(s) : gen_ip6(s);
		case 4: return o + " ";
		default: return v6 ? "1::2::3" : "256.1.1.1";
	}
}
bool private4(uint32_t a) { return (a >> 24) == 10 || (a >> 20) == 0xac1 || (a >> 16) == 0xc0a8 || a == 0x7f000001; }

struct Addr { // what an address should be
	bool v6, unspecified;
	in_addr a4;
	in6_addr a6;
	unsigned port;
};
void addr_is(Ctx &c, const InetAddress &x, const Addr &w, const char *what) {
	c.check(x.is_ip_v6() == w.v6, "%s: is_ip_v6() is %d", what, x.is_ip_v6());
	c.check(x.family() == (w.v6 ? AF_INET6 : AF_INET), "%s: family %d", what, (int)x.family());
	c.check(x.is_unspecified() == w.unspecified, "%s: is_unspecified() is %d", what, x.is_unspecified());
	c.check(x.to_port() == w.port && x.port_net_endian() == htons(w.port), "%s: port %d instead of %u", what, (int)x.to_port(), w.port);
	char b[64];
	inet_ntop(w.v6 ? AF_INET6 : AF_INET, w.v6 ? (const void *)&w.a6 : (const void *)&w.a4, b, sizeof b);
	c.check(of(x.to_ip()) == b, "%s: to_ip() is %s instead of %s", what, of(x.to_ip()).c_str(), b);
	if (!w.v6) {
		c.check(of(x.to_ip_port()) == B(b) + ":" + std::to_string(w.port), "%s: to_ip_port() is %s", what, of(x.to_ip_port()).c_str());
		c.check(x.ip_net_endian() == w.a4.s_addr, "%s: ip_net_endian()", what);
		const sockaddr_in *sa = (const sockaddr_in *)x.get_sock_addr();
		c.check(sa->sin_family == AF_INET && sa->sin_port == htons(w.port) && sa->sin_addr.s_addr == w.a4.s_addr, "%s: get_sock_addr()", what);
		uint32_t a = ntohl(w.a4.s_addr);
		c.check(x.is_loopback_ip() == (a == 0x7f000001) || a >> 24 == 127, "%s: is_loopback_ip() of %s is %d", what, b, x.is_loopback_ip());
		c.check(x.is_intranet_ip() == private4(a) || a >> 24 == 127, "%s: is_intranet_ip() of %s is %d", what, b, x.is_intranet_ip());
	} else {
		c.check(memcmp(x.ip6_net_endian(), &w.a6, 16) == 0, "%s: ip6_net_endian()", what);
		const sockaddr_in6 *sa = (const sockaddr_in6 *)x.get_sock_addr();
		c.check(sa->sin6_family == AF_INET6 && sa->sin6_port == htons(w.port) && memcmp(&sa->sin6_addr, &w.a6, 16) == 0, "%s: get_sock_addr()", what);
		bool mapped = IN6_IS_ADDR_V4MAPPED(&w.a6), one = IN6_IS_ADDR_LOOPBACK(&w.a6);
		uint32_t a = ntohl(w.a6.s6_addr32[3]), top = ntohl(w.a6.s6_addr32[0]);
		if (!(mapped && a >> 24 == 127 && a != 0x7f000001)) {
			c.check(x.is_loopback_ip() == (one || (mapped && a == 0x7f000001)), "%s: is_loopback_ip() of %s is %d", what, b, x.is_loopback_ip());
			if (top >> 25 != 0x7e) { // fc00::/7 is left open
				c.check(x.is_intranet_ip() == (one || (mapped && private4(a)) || top >> 22 == 0xfec00000 >> 22 || top >> 22 == 0xfe800000 >> 22), "%s: is_intranet_ip() of %s is %d", what, b, x.is_intranet_ip());
			}
		}
	}
}
} // namespace

VT_PROP(P20, addresses, 12000) {
	struct Slot {
		InetAddress *x = nullptr;
		Addr w;
		~Slot() {
			if (x) {
				memdelete(x);
			}
		}
	} slots[3];
	auto zero = [](bool v6, unsigned port) {
		Addr w;
		memset(&w, 0, sizeof w);
		w.v6 = v6;
		w.port = port;
		return w;
	};
	int n = 2 + (int)s.draw(8);
	bool told = false;
	for (int i = 0; i < n; i++) {
		Slot &t = slots[s.draw(3)];
		int op = (int)s.draw(8);
		bool v6 = s.flag();
		unsigned port = s.flag() ? s.pick({ 0u, 1u, 80u, 255u, 256u, 8080u, 65535u }) : (unsigned)s.draw(65536);
		Addr w = zero(v6, port);
		InetAddress *made = nullptr;
		switch (op) {
			case 0:
			case 1: {
				B ip = v6 ? gen_ip6(s) : gen_ip4(s);
				if (s.one_in(4)) {
					ip = gen_bad(s, v6);
				}
				c.note("from %s v6=%d", quoted(ip).c_str(), v6);
				w.unspecified = inet_pton(v6 ? AF_INET6 : AF_INET, ip.c_str(), v6 ? (void *)&w.a6 : (void *)&w.a4) <= 0;
				if (w.unspecified) {
					w.a4.s_addr = 0;
					memset(&w.a6, 0, sizeof w.a6);
				}
				made = memnew(InetAddress(st(ip), port, v6));
				break;
			}
			case 2: {
				bool loop = s.flag();
				c.note("any/loopback=%d v6=%d", loop, v6);
				if (v6) {
					w.a6 = loop ? in6addr_loopback : in6addr_any;
				} else {
					w.a4.s_addr = htonl(loop ? INADDR_LOOPBACK : INADDR_ANY);
				}
				made = memnew(InetAddress(port, loop, v6));
				break;
			}
			case 3: {
				c.note("from the system's v6=%d", v6);
				if (v6) {
					sockaddr_in6 a;
					memset(&a, 0, sizeof a);
					a.sin6_family = AF_INET6;
					a.sin6_port = htons(port);
					inet_pton(AF_INET6, gen_ip6(s).c_str(), &a.sin6_addr);
					w.a6 = a.sin6_addr;
					made = memnew(InetAddress(a));
				} else {
					sockaddr_in a;
					memset(&a, 0, sizeof a);
					a.sin_family = AF_INET;
					a.sin_port = htons(port);
					inet_pton(AF_INET, gen_ip4(s).c_str(), &a.sin_addr);
					w.a4 = a.sin_addr;
					made = memnew(InetAddress(a));
				}
				break;
			}
			case 4: // a copy
				for (Slot &o : slots) {
					if (o.x && &o != &t) {
						c.note("copy");
						w = o.w;
						made = memnew(InetAddress(*o.x));
						break;
					}
				}
				break;
			case 5: // assignment, also to itself
			{
				Slot &o = slots[s.draw(3)];
				if (o.x && t.x) {
					c.note("assign %d", &o == &t);
					*t.x = *o.x;
					t.w = o.w;
				}
				break;
			}
			case 6:
				if (t.x) {
					c.note("port");
					t.x->set_port_net_endian(htons(port));
					t.w.port = port;
				}
				break;
			default:
				if (t.x) {
					c.note("set");
					sockaddr_in6 a;
					memset(&a, 0, sizeof a);
					if (v6) {
						a.sin6_family = AF_INET6;
						a.sin6_port = htons(port);
						inet_pton(AF_INET6, gen_ip6(s).c_str(), &a.sin6_addr);
						w.a6 = a.sin6_addr;
					} else {
						sockaddr_in *b = (sockaddr_in *)&a;
						b->sin_family = AF_INET;
						b->sin_port = htons(port);
						inet_pton(AF_INET, gen_ip4(s).c_str(), &b->sin_addr);
						w.a4 = b->sin_addr;
					}
					t.x->set_sock_addr_inet6(a);
					t.w = w;
				}
		}
		if (made) {
			if (t.x) {
				memdelete(t.x);
			}
			t.x = made;
			t.w = w;
		}
		for (int k = 0; k < 3; k++) {
			if (slots[k].x) {
				char b[32];
				snprintf(b, sizeof b, "address %d", k);
				addr_is(c, *slots[k].x, slots[k].w, b);
				told = true;
			}
		}
	}
	c.no_errors("addresses");
	if (told) {
		c.nt();
	}
}

namespace {
bool ready(int fd, short what, int ms = 2000) {
	pollfd p = { fd, what, 0 };
	return ::poll(&p, 1, ms) > 0;
}
unsigned port_of(const sockaddr_in6 &a) { return ntohs(a.sin6_port); } // at the same place in a sockaddr_in
int opt(int fd, int level, int name) {
	int v = -1;
	socklen_t l = sizeof v;
	return getsockopt(fd, level, name, &v, &l) == 0 ? v : -1;
}
struct Queue {
	std::deque<char> q;
	bool shut = false, seen_end = false;
};
} // namespace

namespace {
unsigned raw_port(int fd, bool peer) {
	sockaddr_storage a;
	memset(&a, 0, sizeof a);
	socklen_t n = sizeof a;
	peer ? getpeername(fd, (sockaddr *)&a, &n) : getsockname(fd, (sockaddr *)&a, &n);
	return ntohs(a.ss_family == AF_INET6 ? ((sockaddr_in6 *)&a)->sin6_port : ((sockaddr_in *)&a)->sin_port);
}
// connections that have ended hold their ports for a minute: is any left?
bool no_port(bool v6) {
	int fd = ::socket(v6 ? AF_INET6 : AF_INET, SOCK_STREAM, 0);
	sockaddr_storage a;
	memset(&a, 0, sizeof a);
	a.ss_family = v6 ? AF_INET6 : AF_INET;
	if (v6) {
		((sockaddr_in6 *)&a)->sin6_addr = in6addr_loopback;
	} else {
		((sockaddr_in *)&a)->sin_addr.s_addr = htonl(INADDR_LOOPBACK);
	}
	bool none = fd < 0 || ::bind(fd, (sockaddr *)&a, v6 ? sizeof(sockaddr_in6) : sizeof(sockaddr_in)) != 0;
	if (fd >= 0) {
		::close(fd);
	}
	return none;
}
} // namespace

VT_PROP(P20, streams, 700) {
	std::set<int> fds = open_fds();
	bool v6 = s.one_in(3);
	if (v6) { // not every machine has it
		int p = ::socket(AF_INET6, SOCK_STREAM, 0);
		sockaddr_in6 a;
		memset(&a, 0, sizeof a);
		a.sin6_family = AF_INET6;
		a.sin6_addr = in6addr_loopback;
		v6 = p >= 0 && ::bind(p, (sockaddr *)&a, sizeof a) == 0;
		if (p >= 0) {
			::close(p);
		}
	}
	B text;
	size_t moved = 0;
	{
		Socket server;
		v6 ? server.create(AF_INET6) : server.create_net_socket();
		c.check(server._socket > 0, "no socket");
		c.check((fcntl(server._socket, F_GETFL) & O_NONBLOCK) && (fcntl(server._socket, F_GETFD) & FD_CLOEXEC), "a new socket blocks or is inherited");
		c.check(opt(server._socket, SOL_SOCKET, SO_TYPE) == SOCK_STREAM, "not a stream");
		server.set_reuse_addr(true);
		c.check(opt(server._socket, SOL_SOCKET, SO_REUSEADDR) != 0, "set_reuse_addr(true)");
		int bound = server.bind_address(InetAddress(0, true, v6));
		if (bound != 0 && no_port(v6)) {
			c.discard();
		}
		c.check(bound == 0, "cannot bind to the loopback address");
		int err = -5;
		sockaddr_in6 la = server.get_local_addr(&err);
		unsigned port = port_of(la);
		c.check(err == 0 && la.sin6_family == (v6 ? AF_INET6 : AF_INET) && port != 0, "get_local_addr");
		if (v6) {
			c.check(InetAddress(la).is_loopback_ip(), "bound to %s instead of the loopback address only", of(InetAddress(la).to_ip()).c_str());
		} else {
			sockaddr_in a4;
			memcpy(&a4, &la, sizeof a4);
			c.check(InetAddress(a4).is_loopback_ip(), "bound to %s instead of the loopback address only", of(InetAddress(a4).to_ip()).c_str());
		}
		{
			Socket other; // the address is taken
			other.create(v6 ? AF_INET6 : AF_INET);
			c.check(server.listen() == 0, "listen");
			c.check(other.bind_address(InetAddress(port, true, v6)) == EADDRINUSE, "an address in use can be bound");
		}
		int conns = 1 + (int)s.draw(2);
		Socket cl[2], sv[2];
		Queue up[2], down[2];
		for (int k = 0; k < conns; k++) {
			cl[k].create(v6 ? AF_INET6 : AF_INET);
			InetAddress to(v6 ? "::1" : "127.0.0.1", port, v6);
			int r = cl[k].connect(to);
			if (r != 0 && errno != EINPROGRESS && no_port(v6)) {
				c.discard();
			}
			c.check(r == 0 || errno == EINPROGRESS, "connect: %d", errno);
			c.check(ready(cl[k]._socket, POLLOUT), "the connection is not made");
			c.check(cl[k].get_error() == 0, "get_error() after connecting");
			c.check(ready(server._socket, POLLIN), "the connection does not arrive");
			int fd = server.accept(&sv[k]);
			c.check(fd > 0 && sv[k]._socket == fd, "accept");
			c.check((fcntl(fd, F_GETFL) & O_NONBLOCK) && (fcntl(fd, F_GETFD) & FD_CLOEXEC), "an accepted socket blocks or is inherited");
			// what the system says: has somebody else on this machine come first?
			if (raw_port(fd, true) != raw_port(cl[k]._socket, false)) {
				c.discard();
			}
			sockaddr_in6 mine = cl[k].get_local_addr(&err), theirs = sv[k].get_peer_addr(&err);
			c.check(port_of(mine) == port_of(theirs) && port_of(mine) == sv[k]._address.to_port(), "ports %u, %u and %d of one end", port_of(mine), port_of(theirs), (int)sv[k]._address.to_port());
			c.check(sv[k]._address.is_loopback_ip() && sv[k]._address.is_ip_v6() == v6, "the address of the other end");
			c.check(port_of(cl[k].get_peer_addr(&err)) == port && err == 0, "the port connected to");
			c.check(!cl[k].is_self_connect() && !sv[k].is_self_connect(), "is_self_connect() between two");
		}
		if (conns == 1) {
			int fd = server.accept(&sv[1]);
			if (fd >= 0 && raw_port(fd, true) != raw_port(cl[0]._socket, false)) {
				c.discard();
			}
			c.check(fd < 0, "a connection nobody made");
		}
		int n = 3 + (int)s.draw(25);
		for (int i = 0; i < n; i++) {
			int k = (int)s.draw(conns);
			bool from_client = s.flag();
			Socket &a = from_client ? cl[k] : sv[k], &b = from_client ? sv[k] : cl[k];
			Queue &q = from_client ? up[k] : down[k];
			switch (s.draw(6)) {
				case 0:
				case 1: {
					if (q.shut) {
						break;
					}
					size_t len = 1 + (s.one_in(8) ? s.draw(70000) : s.draw(40));
					B data;
					uint64_t x = s.draw(1 << 20);
					for (size_t j = 0; j < len; j++) {
						x = x * 6364136223846793005ULL + 1442695040888963407ULL;
						data += (char)(x >> 40);
					}
					int r = a.send(data.data(), len);
					c.note("%s%d sends %zu: %d", from_client ? "client" : "server", k, len, r);
					c.check(r > 0 || (r < 0 && (errno == EAGAIN || errno == EWOULDBLOCK)), "send: %d, %d", r, errno);
					c.check(r <= (int)len, "sent more than there is");
					for (int j = 0; j < r; j++) {
						q.q.push_back(data[j]);
					}
					break;
				}
				case 2:
				case 3: {
					size_t len = 1 + (s.one_in(4) ? s.draw(70000) : s.draw(40));
					std::vector<char> buf(len + 1, 0x55);
					if (!q.q.empty() || q.shut) {
						c.check(ready(b._socket, POLLIN), "nothing arrives");
					}
					int r = b.read(buf.data(), len);
					c.note("%s%d reads %zu: %d", from_client ? "server" : "client", k, len, r);
					c.check(buf[len] == 0x55, "read() writes past the buffer");
					if (q.q.empty()) {
						c.check(q.shut ? r == 0 : (r < 0 && (errno == EAGAIN || errno == EWOULDBLOCK)), "read() with nothing there: %d", r);
						q.seen_end |= q.shut;
					} else {
						c.check(r > 0 && r <= (int)len && r <= (int)q.q.size(), "read(%zu): %d with %zu on their way", len, r, q.q.size());
						for (int j = 0; j < r; j++) {
							c.check(buf[j] == q.q.front(), "other bytes arrive than were sent");
							q.q.pop_front();
						}
						moved += r;
					}
					break;
				}
				case 4:
					if (!q.shut && s.one_in(3)) {
						c.note("%s%d ends", from_client ? "client" : "server", k);
						c.check(a.close_write() == 0, "close_write");
						q.shut = true;
					}
					break;
				default: {
					bool on = s.flag();
					switch (s.draw(5)) {
						case 0:
							a.set_tcp_nodelay(on);
							c.check(!!opt(a._socket, IPPROTO_TCP, TCP_NODELAY) == on, "set_tcp_nodelay(%d)", on);
							break;
						case 1:
							a.set_keep_alive(on);
							c.check(!!opt(a._socket, SOL_SOCKET, SO_KEEPALIVE) == on, "set_keep_alive(%d)", on);
							break;
						case 2:
							a.set_reuse_addr(on);
							c.check(!!opt(a._socket, SOL_SOCKET, SO_REUSEADDR) == on, "set_reuse_addr(%d)", on);
							break;
						case 3:
							if (a.set_reuse_port(on) == 0) {
								c.check(!!opt(a._socket, SOL_SOCKET, SO_REUSEPORT) == on, "set_reuse_port(%d)", on);
							}
							break;
						default:
							fcntl(a._socket, F_SETFL, 0);
							fcntl(a._socket, F_SETFD, 0);
							c.check(a.set_non_block() == 0 && (fcntl(a._socket, F_GETFL) & O_NONBLOCK), "set_non_block");
							c.check(a.set_close_on_exit() == 0 && (fcntl(a._socket, F_GETFD) & FD_CLOEXEC), "set_close_on_exit");
					}
				}
			}
		}
		// everything sent arrives, then the end
		for (int k = 0; k < conns; k++) {
			for (int d = 0; d < 2; d++) {
				Socket &a = d ? cl[k] : sv[k], &b = d ? sv[k] : cl[k];
				Queue &q = d ? up[k] : down[k];
				if (!q.shut) {
					c.check(a.close_write() == 0, "close_write");
				}
				std::vector<char> buf(8192);
				while (true) {
					c.check(ready(b._socket, POLLIN), "%zu bytes and the end do not arrive", q.q.size());
					int r = b.read(buf.data(), buf.size());
					if (r == 0) {
						break;
					}
					c.check(r > 0 && r <= (int)q.q.size(), "more arrives than was sent");
					for (int j = 0; j < r; j++) {
						c.check(buf[j] == q.q.front(), "other bytes arrive than were sent");
						q.q.pop_front();
					}
					moved += r;
				}
				c.check(q.q.empty(), "%zu bytes are lost", q.q.size());
			}
			if (s.flag()) {
				cl[k].close_socket();
				cl[k].close_socket();
				c.check(cl[k]._socket == 0, "closed, but has a descriptor");
			}
		}
		c.no_errors("streams");
		if (s.one_in(3)) { // nobody listens there: the port is held by a socket that does not
			server.close_socket();
			struct Held {
				int fd;
				~Held() { ::close(fd); }
			} held{ ::socket(v6 ? AF_INET6 : AF_INET, SOCK_STREAM, 0) };
			sockaddr_in6 a6;
			sockaddr_in a4;
			memset(&a6, 0, sizeof a6);
			memset(&a4, 0, sizeof a4);
			a6.sin6_family = AF_INET6;
			a6.sin6_addr = in6addr_loopback;
			a4.sin_family = AF_INET;
			a4.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
			if ((v6 ? ::bind(held.fd, (sockaddr *)&a6, sizeof a6) : ::bind(held.fd, (sockaddr *)&a4, sizeof a4)) != 0) {
				c.discard();
			}
			Socket late;
			late.create(v6 ? AF_INET6 : AF_INET);
			int r = late.connect(InetAddress(v6 ? "::1" : "127.0.0.1", raw_port(held.fd, false), v6));
			if (r != 0 && errno == EINPROGRESS) {
				c.check(ready(late._socket, POLLOUT | POLLERR), "a refused connection hangs");
				r = late.get_error() == ECONNREFUSED ? -1 : 0;
			}
			c.check(r == -1, "connected to nobody");
		}
	}
	c.check(open_fds() == fds, "descriptors stay open");
	if (moved > 0) {
		c.nt();
	}
}

VT_PROP(P20, lone_sockets, 1500) {
	std::set<int> fds = open_fds();
	int kind = (int)s.draw(4);
	c.note("kind=%d", kind);
	if (kind == 3) { // not connected to itself, however alike the two ends are
		int l = ::socket(AF_INET, SOCK_STREAM, 0), k = ::socket(AF_INET, SOCK_STREAM, 0), r = -1;
		struct Closer {
			std::vector<int> f;
			~Closer() {
				for (int x : f) {
					::close(x);
				}
			}
		} closer{ { l } };
		unsigned n = 1 + s.draw(200);
		sockaddr_in a{}, b{};
		socklen_t len = sizeof a;
		a.sin_family = b.sin_family = AF_INET;
		a.sin_addr.s_addr = htonl(0x7f000001 + (s.flag() ? 0 : (unsigned)s.draw(200) << 8));
		b.sin_addr.s_addr = htonl(ntohl(a.sin_addr.s_addr) + n);
		bool same_port = !s.one_in(4), flip = s.flag();
		if (::bind(l, (sockaddr *)&a, sizeof a) != 0 || ::listen(l, 4) != 0 || getsockname(l, (sockaddr *)&a, &len) != 0) {
			::close(k);
			c.discard();
		}
		b.sin_port = same_port ? a.sin_port : 0;
		if (::bind(k, (sockaddr *)&b, sizeof b) != 0 || ::connect(k, (sockaddr *)&a, sizeof a) != 0 || (r = ::accept(l, nullptr, nullptr)) < 0) {
			::close(k);
			c.discard();
		}
		c.note("same_port=%d flip=%d n=%u", same_port, flip, n);
		(flip ? k : r) >= 0 ? closer.f.push_back(flip ? k : r) : (void)0;
		InetAddress given(ntohs(a.sin_port), false);
		Socket x(flip ? r : k, given);
		c.check(!x.is_self_connect(), "a connection between two addresses counts as one to itself");
		c.no_errors("asking whether a socket is connected to itself");
	} else if (kind == 0) { // every operation refuses a socket that is not open
		Socket x;
		int op = (int)s.draw(10), r = -1;
		c.note("op=%d", op);
		switch (op) {
			case 0: r = x.connect(InetAddress("127.0.0.1", 9)); break;
			case 1: r = x.bind_address(InetAddress(0, true)); break;
			case 2: r = x.listen(); break;
			case 3: r = x.close_write(); break;
			case 4: r = x.set_non_block(); break;
			case 5: r = x.set_close_on_exit(); break;
			case 6: r = x.get_error(); break;
			case 7: r = x.is_self_connect() ? 0 : -1; break;
			case 8: x.set_tcp_nodelay(true); break;
			default: r = x.set_reuse_port(true);
		}
		c.check(r != 0, "an operation on a socket that is not open succeeds");
		c.check(c.errors() > 0, "no error is reported");
		x.close_socket();
		c.check(open_fds() == fds, "standard input was closed");
	} else if (kind == 1) { // takes over a descriptor and a copy of an address
		int fd = ::socket(AF_INET, SOCK_STREAM, 0);
		InetAddress *a = memnew(InetAddress("10.2.3.4", 77));
		{
			Socket x(fd, *a);
			memdelete(a);
			c.check(x._socket == fd && of(x._address.to_ip_port()) == "10.2.3.4:77", "a socket made from a descriptor");
		}
		c.check(fcntl(fd, F_GETFD) < 0, "a socket leaves its descriptor open");
		c.no_errors("a socket made from a descriptor");
	} else { // connected to itself
		Socket x;
		x.create_net_socket();
		int bound = x.bind_address(InetAddress(0, true));
		if (bound != 0 && no_port(false)) {
			c.discard();
		}
		c.check(bound == 0, "bind");
		unsigned port = port_of(x.get_local_addr());
		int r = x.connect(InetAddress("127.0.0.1", port));
		if (r != 0 && errno != EINPROGRESS) {
			c.discard();
		}
		if (!ready(x._socket, POLLOUT) || x.get_error() != 0) {
			c.discard();
		}
		c.check(x.is_self_connect(), "connected to itself without noticing");
		char b[8] = { 0 };
		c.check(x.send("abc", 3) == 3 && ready(x._socket, POLLIN) && x.read(b, 8) == 3 && B(b) == "abc", "what is sent to itself does not arrive");
		c.no_errors("connecting to itself");
	}
	c.check(open_fds() == fds, "descriptors stay open");
	c.nt();
}

// ---------------------------------------------------------------- P21

namespace {
const uid_t NOBODY = 65534;
// a directory of the cases' own, and an unprivileged user for the rest of this process's life
struct Place {
	B dir;
	Place() {
		if (geteuid() != 0) {
			return;
		}
		const char *own = getenv("VT_SCRATCH");
		for (const char *b : { own, "/tmp" }) {
			if (!b) {
				continue;
			}
			B t = B(b) + "/vtproc.XXXXXX";
			if (!mkdtemp(&t[0])) {
				continue;
			}
			int pid = fork(); // is it within reach of that user?
			if (pid == 0) {
				bool good = ::chown(t.c_str(), NOBODY, NOBODY) == 0 && setgroups(0, nullptr) == 0 && setresgid(NOBODY, NOBODY, NOBODY) == 0 && setresuid(NOBODY, NOBODY, NOBODY) == 0 && ::chdir(t.c_str()) == 0 && ::access(t.c_str(), W_OK) == 0;
				_exit(good ? 0 : 1);
			}
			int st = 1;
			waitpid(pid, &st, 0);
			if (st == 0) {
				dir = t;
				break;
			}
			rmdir(t.c_str());
		}
		if (!dir.empty() && !(setgroups(0, nullptr) == 0 && setresgid(NOBODY, NOBODY, NOBODY) == 0 && setresuid(NOBODY, NOBODY, NOBODY) == 0)) {
			dir.clear();
		}
	}
};
void empty_dir(const B &d) { // d is always a Place
	DIR *h = opendir(d.c_str());
	while (dirent *e = h ? readdir(h) : nullptr) {
		B n = e->d_name;
		if (n != "." && n != "..") {
			unlink((d + "/" + n).c_str());
		}
	}
	if (h) {
		closedir(h);
	}
}
// arguments that a shell would take apart; no slash, dot, ampersand, brace or closing parenthesis and no letters that make
// up a command, so that even a shell that gets to see them does nothing
B gen_arg(Src &s) {
	static const char *part[] = { "Q", "J", "0", " ", "\t", "\n", "\"", "'", "\\", "$", "$Q", "$$", "`", "*", "?", ";", "|", ">", "<", "!", "#", "[", "]", "=", "-", "%", "(", "%s", "\xc3\xa9", "\xe6\xbc\xa2", "\xf0\x9f\x98\x80", "~", "\\n", "''", "2>", ":" };
	B o;
	int n = (int)s.draw(8);
	for (int i = 0; i < n; i++) {
		o += part[s.draw(sizeof part / sizeof *part)];
	}
	return o;
}
const char *SCRIPT =
		"#!/bin/sh\n"
		"code=$1; err=$2; out=$3; shift 3\n"
		"if [ -n \"$out\" ]; then exec > \"$out\"; fi\n"
		"printf '%s' \"$err\" >&2\n"
		"for a; do printf '[%s]\\n' \"$a\"; done\n"
		"case $code in\n"
		"kill) kill -9 $$ ;;\n"
		"wait) exec sleep 20 ;;\n"
		"many) i=0; while [ $i -lt 400 ]; do printf '%s %d\\n' \"$err\" $i; i=$((i+1)); done; exit 5 ;;\n"
		"*) exit $code ;;\n"
		"esac\n";
B slurp(const B &p) {
	B o;
	int f = ::open(p.c_str(), O_RDONLY);
	char b[4096];
	ssize_t r;
	while (f >= 0 && (r = ::read(f, b, sizeof b)) > 0) {
		o.append(b, r);
	}
	if (f >= 0) {
		::close(f);
	}
	return o;
}
bool put(const B &p, const B &data, int mode) {
	// the name appears only when nobody has it open for writing any more
	int f = ::open(p.c_str(), O_CREAT | O_TRUNC | O_WRONLY, mode);
	bool good = f >= 0 && ::write(f, data.data(), data.size()) == (ssize_t)data.size();
	if (f >= 0) {
		::close(f);
	}
	return good;
}
bool runs(SubProcess *p, int ms) { // still running after that time?
	for (int i = 0; i < ms; i++) {
		if (!p->is_process_running()) {
			return false;
		}
		usleep(1000);
	}
	return true;
}
} // namespace

VT_PROP(P21, processes, 700) {
	static Place place;
	if (place.dir.empty() || ::chdir(place.dir.c_str()) != 0) {
		c.discard();
	}
	char sub[32];
	static int count = 0;
	snprintf(sub, sizeof sub, "/%d_%d", (int)getpid(), count++ % 4);
	struct Clean {
		B dir;
		~Clean() {
			g_watch = false;
			empty_dir(dir);
		}
	} clean{ place.dir };
	B name = place.dir + "/" + s.pick({ "run", "run it", "r'n", "r\"n", "$Q", "r`n", "r\\n", "r;n", "r*n", "-r", "r\xc3\xa9" });
	if (!put(name, SCRIPT, 0755)) {
		c.discard();
	}
	std::set<int> fds = open_fds();
	size_t mem = Memory::get_mem_usage();
	g_stray.clear();
	g_watch = true;
	size_t outputs = 0;
	{
		SubProcess *p = SubProcess::create();
		int n = 1 + (int)s.draw(3);
		for (int i = 0; i < n; i++) {
			bool blocking = s.flag(), reading = s.one_in(4) ? false : true, with_err = s.flag(), mutex = s.one_in(3);
			int code = s.flag() ? 0 : (int)s.draw(256);
			int special = s.one_in(3) ? 1 + (int)s.draw(4) : 0; // 1 killed, 2 long output, 3 not there, 4 waits
			if (special == 4 && (blocking || reading)) {
				special = 0;
			}
			std::vector<B> args;
			int na = (int)s.draw(5);
			for (int k = 0; k < na; k++) {
				args.push_back(gen_arg(s));
			}
			if (s.one_in(6)) { // longer than a read buffer
				static const char *unit[] = { "Q", "\xc3\xa9", "\xe6\xbc\xa2", "\xf0\x9f\x98\x80" };
				B u = unit[blocking ? s.draw(4) : 0], w(s.draw(4), 'J');
				size_t len = (blocking ? 60000 : 30000) + s.draw(12000);
				while (w.size() < len) {
					w += u;
				}
				args.push_back(w);
			}
			B err = s.flag() ? "" : gen_arg(s);
			// the helper's own output file when nothing is read
			B out = reading ? "" : place.dir + "/out";
			B path = special == 3 ? place.dir + "/missing" : name;
			Vector<String> av;
			av.push_back(special == 1 ? String("kill") : special == 2 ? String("many") : special == 4 ? String("wait") : String::num_int64(code));
			av.push_back(st(err));
			av.push_back(st(out));
			for (const B &a : args) {
				av.push_back(st(a));
			}
			c.note("blocking=%d reading=%d err=%d code=%d special=%d stderr=%s args:", blocking, reading, with_err, code, special, quoted(err).c_str());
			B want = with_err || !reading ? "" : "";
			if (with_err && reading) {
				want += err;
			}
			for (const B &a : args) {
				c.note(" %s", quoted(a).c_str());
				want += "[" + a + "]\n";
			}
			if (special == 2) {
				for (int k = 0; k < 400; k++) {
					want += err + " " + std::to_string(k) + "\n";
				}
			}
			if (special == 3) {
				want = "";
			}
			if (!reading) {
				unlink(out.c_str());
			}
			// what the helper writes to its standard error without being read goes nowhere
			int keep2 = -1;
			if (!reading) {
				keep2 = dup(2);
				int nul = ::open("/dev/null", O_WRONLY);
				dup2(nul, 2);
				::close(nul);
			}
			Error e;
			if (s.flag()) {
				e = p->run(st(path), av, reading, blocking, with_err, mutex);
			} else {
				p->set_executable_path(st(path));
				p->set_arguments(av);
				p->set_blocking(blocking);
				p->set_read_output(reading);
				p->set_read_std_err(with_err);
				p->set_use_pipe_mutex(mutex);
				e = p->start();
			}
			c.check(e == OK, "it does not start: %d", (int)e);
			c.check(of(p->get_executable_path()) == path && p->get_arguments().size() == av.size() && p->get_blocking() == blocking && p->get_read_output() == reading && p->get_read_std_err() == with_err && p->get_use_pipe_mutex() == mutex, "the settings read back differently");
			bool cut = false;
			B got;
			if (blocking) {
				c.check(!p->is_process_running(), "runs after a blocking start");
				got = of(p->get_data());
			} else if (reading) {
				c.check(p->start() == ERR_BUSY, "started while it runs");
				c.check(p->run(st(path), av) == ERR_ALREADY_IN_USE, "run while it runs");
				if (s.one_in(3)) {
					int before = c.errors();
					p->set_blocking(true);
					p->set_executable_path("x");
					p->set_arguments(Vector<String>());
					(void)before;
					c.check(c.errors() > 0 && !p->get_blocking() && of(p->get_executable_path()) == path && p->get_arguments().size() == av.size(), "settings change while it runs");
				}
				int stop_after = s.one_in(5) ? (int)s.draw(4) : 1 << 30;
				while (true) {
					if (stop_after-- == 0) {
						c.note("stopped");
						p->stop();
						cut = true;
						break;
					}
					Error pe = p->poll();
					if (pe == ERR_FILE_EOF) {
						break;
					}
					c.check(pe == OK, "poll: %d", (int)pe);
					got += of(p->get_data());
					c.check(got.size() <= want.size() || special == 3 || special == 1, "more output than there is");
				}
				c.check(!p->is_process_running(), "runs after its end");
				c.check(p->poll() == OK && p->stop() == OK, "poll or stop after the end");
			} else {
				int pid = p->get_process_id();
				c.check(pid > 1, "no process id");
				if (special == 4) {
					c.check(p->is_process_running() && p->start() == ERR_BUSY, "it does not run");
					switch (s.draw(3)) {
						case 0:
							c.check(p->stop() == OK && !p->is_process_running() && p->get_process_id() == 0, "stop() leaves it running");
							break;
						case 1: {
							memdelete(p);
							siginfo_t si;
							memset(&si, 0, sizeof si);
							bool gone = waitid(P_PID, pid, &si, WEXITED | WNOHANG | WNOWAIT) != 0;
							p = SubProcess::create();
							c.check(gone, "the process survives its SubProcess");
							break;
						}
						default:
							syscall(SYS_kill, pid, SIGTERM);
							c.check(!runs(p, 5000), "it is gone, but still runs");
							c.check(p->get_exitcode() != 0, "ended by a signal with exit code 0");
							c.check(p->stop() == OK, "stop() after the end");
					}
				} else {
					if (s.one_in(4)) {
						c.note("stopped");
						cut = true;
						p->stop();
					}
					c.check(!runs(p, 10000), "it does not end");
					if (s.flag()) {
						p->stop();
					}
					c.check(!p->is_process_running(), "runs after its end");
				}
			}
			if (keep2 >= 0) {
				dup2(keep2, 2);
				::close(keep2);
			}
			int x = p->get_exitcode();
			if (special == 0 && !cut) {
				c.check(x == code, "exit code %d instead of %d", x, code);
			} else if (special == 2 && !cut) {
				c.check(x == 5, "exit code %d instead of 5", x);
			} else if ((special == 1 || special == 3) && !cut) {
				c.check(x != 0, "exit code 0 of a process that was killed or not even found");
			}
			if (!reading && special != 4 && !cut) {
				got = slurp(out);
			}
			if (special == 3) {
				c.check(got.empty() || with_err, "output of a program that does not exist: %s", quoted(got).c_str());
			} else if (special == 1 && with_err && !cut) { // the shell may say what happened
				c.check(got.compare(0, want.size(), want) == 0, "output %s instead of %s", quoted(got).c_str(), quoted(want).c_str());
			} else if (special != 4) {
				c.check(cut ? (want + (special == 1 ? "Killed\n" : "")).compare(0, got.size(), got) == 0 : got == want, "output %s instead of %s", quoted(got).c_str(), quoted(want).c_str());
				outputs += got.size();
			}
			c.check(g_stray.empty(), "a signal was sent to process %ld, which is none of its own", g_stray.empty() ? 0 : g_stray[0].first);
		}
		memdelete(p);
	}
	g_watch = false;
	c.check(g_stray.empty(), "a signal was sent to process %ld, which is none of its own", g_stray.empty() ? 0 : g_stray[0].first);
	c.check(open_fds() == fds, "descriptors stay open");
	int st2 = 0;
	c.check(waitpid(-1, &st2, WNOHANG) == -1 && errno == ECHILD, "a process is left behind");
	c.check(Memory::get_mem_usage() <= mem, "%zu bytes are lost", (size_t)(Memory::get_mem_usage() - mem));
	c.errors();
	if (outputs) {
		c.nt();
	}
}

VT_PROP(P21, wrong_use, 300) {
	SubProcess *p = SubProcess::create();
	int n = 1 + (int)s.draw(4);
	for (int i = 0; i < n; i++) {
		switch (s.draw(5)) {
			case 0: c.check(p->start() == ERR_FILE_BAD_PATH, "starts without a program"); break;
			case 1: c.check(p->stop() == OK, "stop() without a process"); break;
			case 2: c.check(p->poll() == OK, "poll() without a process"); break;
			case 3: c.check(!p->is_process_running(), "runs without a process"); break;
			default: c.check(p->send_signal(1) != OK && p->send_data("x") != OK, "what is not there works");
		}
	}
	c.check(p->get_data().empty() && p->get_process_id() == 0, "state of a process that never ran");
	memdelete(p);
	c.errors();
	c.nt();
}

// ---------------------------------------------------------------- P22

VT_PROP(P22, memory_pool, 6000) {
	int kind = (int)s.draw(3), align = kind == 0 ? 1 : 1 << s.draw(5), size = 1 + (int)s.draw(s.flag() ? 40 : 400);
	if (s.one_in(4)) {
		align = kind == 0 ? 1 : 1 + (int)s.draw(12);
	}
	bool locking = s.flag();
	int most = 1 + (int)s.draw(s.flag() ? 4 : 20);
	int shift = (int)s.draw(16);
	std::vector<uint8_t> mem(size + 64, 0xa5);
	PoolAllocator *p = kind == 0 ? memnew(PoolAllocator(size, locking, most)) : kind == 1 ? memnew(PoolAllocator((void *)(mem.data() + 16 + shift), size, align, locking, most))
																						  : memnew(PoolAllocator(align, size, locking, most));
	struct Del {
		PoolAllocator *p;
		~Del() { memdelete(p); }
	} del{ p };
	c.note("kind=%d size=%d align=%d locking=%d most=%d", kind, size, align, locking, most);
	int total = size;
	if (kind == 1 && align > 1 && (uintptr_t)(mem.data() + 16 + shift) % align) {
		total -= align - (uintptr_t)(mem.data() + 16 + shift) % align;
	}
	if (total < 1) {
		c.discard();
	}
	auto up = [&](int n) { return (n + align - 1) / align * align; };
	struct Chunk {
		int id;
		std::vector<uint8_t> data;
		int locks = 0;
		uint8_t *at = nullptr;
	};
	std::vector<Chunk> live;
	std::vector<int> gone;
	int least = total, done = 0;
	uint8_t stamp = 0;
	auto used = [&] {
		int n = 0;
		for (Chunk &x : live) {
			n += up((int)x.data.size());
		}
		return n;
	};
	auto any_lock = [&] {
		for (Chunk &x : live) {
			if (x.locks) {
				return true;
			}
		}
		return false;
	};
	auto ptr = [&](Chunk &x) -> uint8_t * {
		if (locking) {
			c.check(p->lock(x.id) == OK, "lock");
		}
		uint8_t *a = (uint8_t *)p->get(x.id);
		c.check(a != nullptr && a == ((const PoolAllocator *)p)->get(x.id), "get");
		if (locking) {
			p->unlock(x.id);
		}
		return a;
	};
	auto holds = [&] {
		for (Chunk &x : live) {
			uint8_t *a = ptr(x);
			c.check(p->get_size(x.id) == (int)x.data.size(), "get_size is %d instead of %zu", p->get_size(x.id), x.data.size());
			c.check((uintptr_t)a % align == 0, "a chunk is not aligned");
			c.check(!x.locks || a == x.at, "a locked chunk was moved");
			c.check(memcmp(a, x.data.data(), x.data.size()) == 0, "a chunk lost its data");
			c.check(p->is_locked(x.id) == (x.locks > 0), "is_locked");
			if (kind == 1) {
				c.check(a >= mem.data() + 16 + shift && a + x.data.size() <= mem.data() + 16 + shift + size, "a chunk outside the memory given");
			}
			for (Chunk &y : live) {
				uint8_t *b = &y == &x ? nullptr : ptr(y);
				c.check(!b || a + x.data.size() <= b || b + y.data.size() <= a, "chunks overlap");
			}
		}
		int u = used();
		least = std::min(least, total - u);
		c.check(p->get_used_mem() == u && p->get_free_mem() == total - u, "%d used and %d free instead of %d and %d", p->get_used_mem(), p->get_free_mem(), u, total - u);
		c.check(p->get_free_peak() == least, "the least free memory was %d, not %d", least, p->get_free_peak());
	};
	int n = 3 + (int)s.draw(25);
	for (int i = 0; i < n; i++) {
		int op = (int)s.draw(10);
		Chunk *x = live.empty() ? nullptr : &live[s.draw(live.size())];
		if (op < 4 || !x) {
			int want = s.one_in(8) ? total - used() + (int)s.range(-1, 1) : s.one_in(12) ? (int)s.range(-2, 0) : 1 + (int)s.draw(s.flag() ? 8 : total);
			bool fits = want >= 1 && up(want) <= total - used() && want <= total - used() && (int)live.size() < most;
			int before = c.errors();
			(void)before;
			int id = p->alloc(want);
			c.note("alloc(%d)=%d", want, id);
			if (id == POOL_ALLOCATOR_INVALID_ID) {
				c.check(!fits || any_lock(), "no chunk of %d with %d free and %zu of %d chunks", want, total - used(), live.size(), most);
				c.errors();
			} else {
				c.check(fits, "a chunk of %d from %d free", want, total - used());
				Chunk y;
				y.id = id;
				y.data.assign(want, 0);
				for (Chunk &o : live) {
					c.check(o.id != id, "an id given twice");
				}
				for (auto &b : y.data) {
					b = ++stamp;
				}
				live.push_back(y);
				memcpy(ptr(live.back()), y.data.data(), want);
				done++;
			}
		} else if (op < 6) {
			c.note("free(%d)", x->id);
			p->free(x->id);
			if (!x->locks) {
				gone.push_back(x->id);
				live.erase(live.begin() + (x - live.data()));
				c.no_errors("free");
				done++;
			} else {
				c.check(c.errors() > 0, "a locked chunk is freed without an error");
			}
		} else if (op < 8) {
			int now = (int)x->data.size(), room = total - used() + up(now);
			int want = s.one_in(3) ? room + (int)s.range(-1, 1) : s.one_in(10) ? (int)s.range(-1, 0) : 1 + (int)s.draw(s.flag() ? 2 * now : total);
			Error e = p->resize(x->id, want);
			c.note("resize(%d, %d)=%d", x->id, want, (int)e);
			if (e == OK) {
				c.check(want >= 1 && up(want) <= room && !x->locks, "resized to %d with room for %d", want, room);
				x->data.resize(want, 0);
				uint8_t *a = ptr(*x);
				c.check(memcmp(a, x->data.data(), std::min(now, want)) == 0, "a chunk lost its data while its size changed");
				for (int k = std::min(now, want); k < want; k++) {
					a[k] = x->data[k] = ++stamp;
				}
				c.no_errors("resize");
				done++;
			} else {
				c.check(want < 1 || up(want) > room || any_lock(), "a chunk of %d cannot be resized to %d with room for %d", now, want, room);
				c.errors();
			}
		} else if (op == 8) {
			if (!locking) {
				c.check(p->lock(x->id) == OK && !p->is_locked(x->id), "lock without locking");
				p->unlock(x->id);
			} else if (s.flag()) {
				c.note("lock(%d)", x->id);
				c.check(p->lock(x->id) == OK, "lock");
				x->locks++;
				x->at = (uint8_t *)p->get(x->id);
			} else {
				c.note("unlock(%d)", x->id);
				p->unlock(x->id);
				if (x->locks) {
					x->locks--;
					c.no_errors("unlock");
				} else {
					c.check(c.errors() > 0, "unlocked what is not locked");
					c.check(p->get(x->id) == nullptr, "get() of what is not locked");
					c.errors();
				}
			}
		} else if (!gone.empty()) { // ids that are no more
			int id = gone[s.draw(gone.size())];
			bool again = false;
			for (Chunk &o : live) {
				again |= o.id == id;
			}
			if (!again) {
				c.note("stale %d", id);
				c.errors();
				switch (s.draw(4)) {
					case 0: p->free(id); break;
					case 1: c.check(p->get_size(id) == 0, "the size of what was freed"); break;
					case 2: c.check(p->get(id) == nullptr, "the place of what was freed"); break;
					default: c.check(p->resize(id, 1) != OK, "what was freed is resized");
				}
				c.check(c.errors() > 0, "no error for an id that is no more");
			}
		}
		holds();
	}
	if (kind == 1) {
		for (size_t i = 0; i < mem.size(); i++) {
			c.check((i >= (size_t)(16 + shift) && i < (size_t)(16 + shift + size)) || mem[i] == 0xa5, "written outside the memory given");
		}
	}
	c.no_errors("a memory pool");
	if (done > 2) {
		c.nt();
	}
}

namespace {
int g_made = 0;
struct Counted {
	int v;
	Counted() :
			v(77) { g_made++; }
	~Counted() {
		g_made--;
		v = 0;
	}
};
} // namespace

VT_PROP(P22, memory_blocks, 4000) {
	struct Block {
		uint8_t *at;
		std::vector<uint8_t> data;
	};
	std::vector<Block> live;
	std::vector<std::pair<Counted *, int>> arrays;
	uint64_t start = Memory::get_mem_usage(), most = 0;
	g_made = 0;
	uint8_t stamp = 0;
	int n = 3 + (int)s.draw(25);
	for (int i = 0; i < n; i++) {
		switch (s.draw(7)) {
			case 0:
			case 1: {
				size_t len = 1 + s.draw(s.flag() ? 20 : 3000);
				Block b{ (uint8_t *)(s.flag() ? memalloc(len) : Memory::alloc_static(len, true)), {} };
				c.check(b.at && (uintptr_t)b.at % 16 == 0, "a block for anything is not aligned");
				for (size_t k = 0; k < len; k++) {
					b.data.push_back(b.at[k] = ++stamp);
				}
				live.push_back(b);
				break;
			}
			case 2:
			case 3:
				if (!live.empty()) {
					Block &b = live[s.draw(live.size())];
					size_t len = 1 + s.draw(s.flag() ? 20 : 3000), old = b.data.size();
					b.at = (uint8_t *)memrealloc(b.at, len);
					c.check(b.at != nullptr, "memrealloc");
					b.data.resize(len);
					c.check(memcmp(b.at, b.data.data(), std::min(old, len)) == 0, "a block lost its data while its size changed");
					for (size_t k = old; k < len; k++) {
						b.data[k] = b.at[k] = ++stamp;
					}
				}
				break;
			case 4:
				if (!live.empty()) {
					size_t k = s.draw(live.size());
					if (s.flag()) {
						memfree(live[k].at);
					} else {
						c.check(memrealloc(live[k].at, 0) == nullptr, "memrealloc to nothing");
					}
					live.erase(live.begin() + k);
				}
				break;
			case 5: {
				int len = 1 + (int)s.draw(30);
				Counted *a = memnew_arr(Counted, len);
				arrays.push_back({ a, len });
				break;
			}
			default:
				if (!arrays.empty()) {
					size_t k = s.draw(arrays.size());
					memdelete_arr(arrays[k].first);
					arrays.erase(arrays.begin() + k);
				}
		}
		uint64_t now = 0;
		int made = 0;
		for (Block &b : live) {
			c.check(memcmp(b.at, b.data.data(), b.data.size()) == 0, "a block lost its data");
			now += b.data.size();
		}
		for (auto &a : arrays) {
			c.check((int)memarr_len(a.first) == a.second, "an array of %d says %d", a.second, (int)memarr_len(a.first));
			for (int k = 0; k < a.second; k++) {
				c.check(a.first[k].v == 77, "an element was not made");
			}
			made += a.second;
			now += a.second * sizeof(Counted);
		}
		c.check(made == g_made, "%d objects live, %d should", g_made, made);
		most = std::max(most, now);
		uint64_t told = Memory::get_mem_usage() - start;
		c.check(told >= now && told <= now + arrays.size() * 64, "%d bytes are counted for %d", (int)told, (int)now);
		c.check(Memory::get_mem_max_usage() >= start + most, "the most ever used is below what was used");
	}
	for (Block &b : live) {
		memfree(b.at);
	}
	for (auto &a : arrays) {
		memdelete_arr(a.first);
	}
	c.check(g_made == 0 && Memory::get_mem_usage() == start, "%d objects and %d bytes are left", g_made, (int)(Memory::get_mem_usage() - start));
	c.no_errors("memory");
	c.nt();
}

VT_PROP(P23, byte_encoding, 20000) {
	uint64_t v = s.flag() ? s.draw(~0ULL) : s.pick({ 0ULL, 1ULL, 255ULL, 256ULL, 65535ULL, 0x80000000ULL, 0xffffffffULL, 0x7ff0000000000000ULL, ~0ULL, 0x0102030405060708ULL });
	if (s.flag()) {
		v >>= s.draw(64);
	}
	c.note("%016llx", (unsigned long long)v);
	uint8_t b[24];
	memset(b, 0x77, sizeof b);
	auto bytes = [&](unsigned n, uint64_t x, unsigned told, const char *what) {
		c.check(told == n, "%s returns %u", what, told);
		for (unsigned i = 0; i < n; i++) {
			c.check(b[4 + i] == (uint8_t)(x >> 8 * i), "%s: byte %u is %02x", what, i, b[4 + i]);
		}
		for (unsigned i = 0; i < sizeof b; i++) {
			c.check((i >= 4 && i < 4 + n) || b[i] == 0x77, "%s writes more than it says", what);
		}
		memset(b + 4, 0x77, n);
	};
	bytes(2, v, encode_uint16((uint16_t)v, b + 4), "encode_uint16");
	bytes(4, v, encode_uint32((uint32_t)v, b + 4), "encode_uint32");
	bytes(8, v, encode_uint64(v, b + 4), "encode_uint64");
	float f;
	uint32_t v32 = (uint32_t)v;
	memcpy(&f, &v32, 4);
	double d;
	memcpy(&d, &v, 8);
	if (f == f) { // other numbers need not keep their bits on the way
		bytes(4, v32, encode_float(f, b + 4), "encode_float");
	}
	if (d == d) {
		bytes(8, v, encode_double(d, b + 4), "encode_double");
	}
	for (int i = 0; i < 8; i++) {
		b[4 + i] = (uint8_t)(v >> 8 * i);
	}
	c.check(decode_uint16(b + 4) == (uint16_t)v && decode_uint32(b + 4) == (uint32_t)v && decode_uint64(b + 4) == v, "decoding whole numbers");
	float f2 = decode_float(b + 4);
	double d2 = decode_double(b + 4);
	c.check(f == f ? memcmp(&f, &f2, 4) == 0 : f2 != f2, "decode_float");
	c.check(d == d ? memcmp(&d, &d2, 8) == 0 : d2 != d2, "decode_double");
	B t;
	int n = (int)s.draw(16);
	for (int i = 0; i < n; i++) {
		t += (char)(1 + s.draw(255));
	}
	memset(b, 0x77, sizeof b);
	c.check(encode_cstring(t.c_str(), nullptr) == n + 1 && encode_cstring(t.c_str(), b + 4) == n + 1, "the length of a text");
	c.check(memcmp(b + 4, t.c_str(), n + 1) == 0 && b[3] == 0x77 && b[5 + n] == 0x77, "encode_cstring");
	c.nt();
}

namespace {
bool g_slept = false;
double g_sleep = 0;
} // namespace
extern "C" int nanosleep(const timespec *t, timespec *) {
	g_slept = true;
	g_sleep += t->tv_sec + t->tv_nsec / 1e9;
	if (t->tv_nsec < 0 || t->tv_nsec > 999999999) {
		g_sleep = -1;
	}
	return 0;
}

VT_PROP(P23, clock, 2000) {
	int n = 2 + (int)s.draw(10);
	uint64_t last = SFWTime::time_ns();
	for (int i = 0; i < n; i++) {
		uint64_t a = SFWTime::time_ns(), us = SFWTime::time_us(), b = SFWTime::time_ns(), ms = SFWTime::time_ms(), d = SFWTime::time_ns();
		c.check(last <= a && a <= b && b <= d, "the clock goes back");
		c.check(us >= a / 1000 && us <= b / 1000, "time_us is %llu between %llu and %llu ns", (unsigned long long)us, (unsigned long long)a, (unsigned long long)b);
		c.check(ms >= b / 1000000 && ms <= d / 1000000, "time_ms is %llu between %llu and %llu ns", (unsigned long long)ms, (unsigned long long)b, (unsigned long long)d);
		double ss = SFWTime::time_ss(), mm = SFWTime::time_mm(), hh = SFWTime::time_hh();
		uint64_t e = SFWTime::time_ns();
		auto in = [&](double x, double unit) { return x >= d / 1e9 / unit * (1 - 1e-9) && x <= e / 1e9 / unit * (1 + 1e-9); };
		c.check(in(ss, 1) && in(mm, 60) && in(hh, 3600), "seconds %g, minutes %g and hours %g", ss, mm, hh);
		last = e;
		int unit = (int)s.draw(4);
		double len = s.one_in(6) ? -(double)s.draw(3) : (1 + (double)s.draw(5000)) / (1 << s.draw(8)), secs = 0;
		g_slept = false;
		g_sleep = 0;
		switch (unit) {
			case 0:
				SFWTime::sleep_ss(len);
				secs = len;
				break;
			case 1:
				SFWTime::sleep_ms(len);
				secs = len / 1e3;
				break;
			case 2:
				SFWTime::sleep_us(len);
				secs = len / 1e6;
				break;
			default:
				SFWTime::sleep_ns(len);
				secs = len / 1e9;
		}
		c.note("sleep %g in unit %d", len, unit);
		c.check(len > 0 ? std::fabs(g_sleep - secs) <= 2e-9 + secs * 1e-9 : g_sleep == 0, "sleeps %.10g s instead of %.10g", g_sleep, secs);
	}
	time_t t0 = time(nullptr);
	uint64_t t1 = SFWTime::date_epoch();
	time_t t2 = time(nullptr);
	c.check((uint64_t)t0 <= t1 && t1 <= (uint64_t)t2, "date_epoch()");
	c.nt();
}

VT_PROP(P23, log_lines, 4000) {
	U u = U();
	int n = (int)s.draw(12);
	for (int i = 0; i < n; i++) {
		u.push_back(s.pick({ U'a', U'%', U's', U'd', U'\\', U'é', U'漢', U'😀', U'|', U':', U' ', U'E' }));
	}
	String text = mk(u);
	B t = of(text);
	static const char *fns[] = { "run", "operator()", "a_b" };
	const char *fn = fns[s.draw(3)], *file = s.pick({ "x.cpp", "/long/path/file name.h", "100%d.c" });
	int line = (int)s.draw(100000), level = (int)s.draw(4), form = (int)s.draw(9);
	bool cs = s.flag();
	c.note("level=%d form=%d %s", level, form, quoted(t).c_str());
	fflush(stdout);
	int keep = dup(1), f = memfd_create("vt-log", 0);
	dup2(f, 1);
	char expect = "TMWE"[level];
	bool where = false, index = false;
	const char *b = t.c_str();
	switch (form) {
		case 0:
			switch (level) {
				case 0: cs ? RLogger::log_trace(b) : RLogger::log_trace(text); break;
				case 1: cs ? RLogger::log_message(b) : RLogger::log_message(text); break;
				case 2: cs ? RLogger::log_warning(b) : RLogger::log_warning(text); break;
				default: cs ? RLogger::log_error(b) : RLogger::log_error(text);
			}
			break;
		case 1:
			where = true;
			switch (level) {
				case 0: cs ? RLogger::log_trace(fn, file, line, b) : RLogger::log_trace(fn, file, line, text); break;
				case 1: cs ? RLogger::log_message(fn, file, line, b) : RLogger::log_message(fn, file, line, text); break;
				case 2: cs ? RLogger::log_warning(fn, file, line, b) : RLogger::log_warning(fn, file, line, text); break;
				default: cs ? RLogger::log_error(fn, file, line, b) : RLogger::log_error(fn, file, line, text);
			}
			break;
		case 2:
			switch (level) {
				case 0: cs ? RLogger::print_trace(b) : RLogger::print_trace(text); break;
				case 1: cs ? RLogger::print_message(b) : RLogger::print_message(text); break;
				case 2: cs ? RLogger::print_warning(b) : RLogger::print_warning(text); break;
				default: cs ? RLogger::print_error(b) : RLogger::print_error(text);
			}
			break;
		case 3:
			where = true;
			switch (level) {
				case 0: cs ? RLogger::print_trace(fn, file, line, b) : RLogger::print_trace(fn, file, line, text); break;
				case 1: cs ? RLogger::print_message(fn, file, line, b) : RLogger::print_message(fn, file, line, text); break;
				case 2: cs ? RLogger::print_warning(fn, file, line, b) : RLogger::print_warning(fn, file, line, text); break;
				default: cs ? RLogger::print_error(fn, file, line, b) : RLogger::print_error(fn, file, line, text);
			}
			break;
		case 4:
			where = true;
			expect = 'E';
			level & 1 ? RLogger::log_msg_error(fn, file, line, b, "failed") : RLogger::print_msg_error(fn, file, line, b, "failed");
			break;
		case 5:
			where = index = true;
			expect = 'E';
			level & 1 ? RLogger::print_index_error(fn, file, line, 123456, 77, b) : cs ? RLogger::log_index_error(fn, file, line, 123456, 77, b)
																						  : RLogger::log_index_error(fn, file, line, 123456, 77, text);
			break;
		default: { // a line put together piece by piece
			where = form == 7;
			String *p;
			switch (level) {
				case 0: p = where ? RLogger::get_trace_string_ptr(fn, file, line) : RLogger::get_trace_string_ptr(); break;
				case 1: p = where ? RLogger::get_message_string_ptr(fn, file, line) : RLogger::get_message_string_ptr(); break;
				case 2: p = where ? RLogger::get_warning_string_ptr(fn, file, line) : RLogger::get_warning_string_ptr(); break;
				default: p = where ? RLogger::get_error_string_ptr(fn, file, line) : RLogger::get_error_string_ptr();
			}
			*p += text;
			if (cs) {
				RLogger::log_ptr(p);
				RLogger::return_string_ptr(p);
			} else {
				RLogger::log_ret_ptr(p);
			}
		}
	}
	fflush(stdout);
	B got;
	char buf[4096];
	ssize_t r;
	lseek(f, 0, SEEK_SET);
	while ((r = ::read(f, buf, sizeof buf)) > 0) {
		got.append(buf, r);
	}
	dup2(keep, 1);
	::close(keep);
	::close(f);
	c.note("printed %s", quoted(got).c_str());
	c.check(!got.empty() && got[0] == expect && got.size() > 1 && got[1] == ' ', "the line does not start with its level");
	c.check(got.find('\n') == got.size() - 1, "not one line");
	c.check(got.find(t) != B::npos, "the text is not in the line");
	if (where) {
		for (const B &x : { B(fn), B(file), ":" + std::to_string(line) }) {
			c.check(got.find(x) != B::npos, "%s is not in the line", x.c_str());
		}
	}
	if (index) {
		c.check(got.find("123456/77") != B::npos, "the index and size are not in the line");
	}
	c.nt();
}

VT_PROP(P23, character_classes, 20000) {
	char32_t x = s.flag() ? (char32_t)s.draw(256) : s.flag() ? (char32_t)s.draw(0x3100) : (char32_t)s.draw(0x110000);
	c.note("U+%04X", (unsigned)x);
	bool a = x < 128;
	bool up = a && x >= 'A' && x <= 'Z', lo = a && x >= 'a' && x <= 'z', dg = a && x >= '0' && x <= '9';
	c.check(is_ascii_upper_case(x) == up && is_ascii_lower_case(x) == lo && is_digit(x) == dg && is_ascii_char(x) == (up || lo), "letters and digits");
	c.check(is_hex_digit(x) == (a && isxdigit((int)x)) && is_binary_digit(x) == (x == '0' || x == '1'), "digits of other bases");
	c.check(is_ascii_alphanumeric_char(x) == (a && isalnum((int)x)) && is_ascii_identifier_char(x) == ((a && isalnum((int)x)) || x == '_'), "letters or digits");
	c.check(is_underscore(x) == (x == '_'), "underscore");
	c.check(is_control(x) == (x < 32 || (x >= 127 && x < 160)), "control");
	if (a) {
		c.check(is_whitespace(x) == !!isspace((int)x), "whitespace");
		c.check(is_linebreak(x) == (x >= 10 && x <= 13), "line break");
		c.check(is_symbol(x) == ((ispunct((int)x) && x != '_') || x == ' ' || x == '\t'), "symbol");
		c.check(is_unicode_identifier_start(x) == (isalpha((int)x) || x == '_'), "start of a name");
		c.check(is_unicode_identifier_continue(x) == (isalnum((int)x) || x == '_'), "part of a name");
	}
	if (is_linebreak(x)) {
		c.check(is_whitespace(x), "a line break that is no whitespace");
	}
	if (is_unicode_identifier_start(x)) {
		c.check(is_unicode_identifier_continue(x), "starts a name, but cannot be inside");
		c.check(!is_whitespace(x) && !is_control(x) && !is_symbol(x) && !is_digit(x), "a letter that is something else too");
	}
	// some whole alphabets
	if ((x >= 0x391 && x <= 0x3c9 && x != 0x3a2) || (x >= 0x410 && x <= 0x44f) || (x >= 0x4e00 && x <= 0x9fff) || (x >= 0xac00 && x <= 0xd7a3) || (x >= 0x3041 && x <= 0x3096)) {
		c.check(is_unicode_identifier_start(x), "a letter cannot start a name");
	}
	c.nt();
}
