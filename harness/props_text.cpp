// P06: encodings and escapes. P07: numbers as text. P08: paths
#include "str.h"
#include <cinttypes>

namespace {
bool surrogate(char32_t c) { return c >= 0xd800 && c <= 0xdfff; }
char32_t code(Src &s) {
	static const char32_t edge[] = { 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfeff, 0xffff, 0x10000, 0x10ffff, 0xfffd, '\r', '\n' };
	char32_t c;
	switch (s.draw(6)) {
		case 0:
			c = 1 + s.draw(0x7f);
			break;
		case 1:
			c = edge[s.draw(sizeof edge / sizeof *edge)];
			break;
		case 2:
			c = 1 + s.draw(0x7ff);
			break;
		case 3:
			c = 1 + s.draw(0xffff);
			break;
		case 4:
			c = 1 + s.draw(0x10ffff);
			break;
		default:
			c = ' ' + s.draw(95);
	}
	return surrogate(c) ? 0x20ac : c;
}
U codes(Src &s, int max) {
	int n = s.grown(0, max, max < 6 ? max : max * 8);
	U u;
	for (int i = 0; i < n; i++) {
		u.push_back(code(s));
	}
	if (!u.empty() && (u[0] == 0xfeff || u[0] == 0xfffe)) {
		u[0] = 'x'; // a byte order mark is not part of the text
	}
	return u;
}
U ascii(Src &s, int max, const char *of) {
	int n = s.grown(0, max, max < 6 ? max : max * 8);
	U u;
	size_t k = strlen(of);
	for (int i = 0; i < n; i++) {
		u.push_back((char32_t)(unsigned char)of[s.draw(k)]);
	}
	return u;
}
U wide(const std::string &b) {
	U u;
	for (char ch : b) {
		u.push_back((unsigned char)ch);
	}
	return u;
}
std::string enc8(const U &u) {
	std::string o;
	for (char32_t c : u) {
		if (c < 0x80) {
			o.push_back((char)c);
		} else if (c < 0x800) {
			o.push_back((char)(0xc0 + c / 64));
			o.push_back((char)(0x80 + c % 64));
		} else if (c < 0x10000) {
			o.push_back((char)(0xe0 + c / 4096));
			o.push_back((char)(0x80 + c / 64 % 64));
			o.push_back((char)(0x80 + c % 64));
		} else {
			o.push_back((char)(0xf0 + c / 262144));
			o.push_back((char)(0x80 + c / 4096 % 64));
			o.push_back((char)(0x80 + c / 64 % 64));
			o.push_back((char)(0x80 + c % 64));
		}
	}
	return o;
}
std::u16string enc16(const U &u) {
	std::u16string o;
	for (char32_t c : u) {
		if (c < 0x10000) {
			o.push_back((char16_t)c);
		} else {
			o.push_back((char16_t)(0xd800 + (c - 0x10000) / 1024));
			o.push_back((char16_t)(0xdc00 + (c - 0x10000) % 1024));
		}
	}
	return o;
}
// the text of valid UTF-8 without zeros; false if it is not valid
bool dec8(const std::string &b, U &o) {
	o.clear();
	for (size_t i = 0; i < b.size();) {
		unsigned c = (unsigned char)b[i];
		int n = c < 0x80 ? 0 : (c >= 0xc2 && c < 0xe0) ? 1 : (c >= 0xe0 && c < 0xf0) ? 2 : (c >= 0xf0 && c < 0xf5) ? 3 : -1;
		if (n < 0 || i + n >= b.size() + 0u) {
			return false;
		}
		char32_t v = n == 0 ? c : c & (0x3f >> n);
		for (int k = 1; k <= n; k++) {
			unsigned d = (unsigned char)b[i + k];
			if ((d & 0xc0) != 0x80) {
				return false;
			}
			v = v * 64 + (d & 0x3f);
		}
		static const char32_t least[] = { 0, 0x80, 0x800, 0x10000 };
		if (v < least[n] || v > 0x10ffff || surrogate(v)) {
			return false;
		}
		o.push_back(v);
		i += n + 1;
	}
	return true;
}
std::string bytes(const CharString &s) { return std::string(s.ptr() ? s.ptr() : "", s.length()); }
std::string pct(const std::string &b, const char *keep, bool upper) {
	std::string o;
	for (char ch : b) {
		if (isalnum((unsigned char)ch) && (unsigned char)ch < 128) {
			o.push_back(ch);
		} else if (ch && strchr(keep, ch)) {
			o.push_back(ch);
		} else {
			char h[4];
			snprintf(h, sizeof h, upper ? "%%%02X" : "%%%02x", (unsigned char)ch);
			o += h;
		}
	}
	return o;
}
std::string hexs(const std::string &b) {
	std::string o;
	for (char ch : b) {
		char h[4];
		snprintf(h, sizeof h, "%02x", (unsigned char)ch);
		o += h;
	}
	return o;
}
void bytes_same(Ctx &c, const std::string &got, const std::string &want, const char *what) {
	if (got != want) {
		c.fail("%s: got bytes %s, expected %s", what, hexs(got).c_str(), hexs(want).c_str());
	}
}
template <class V>
std::string vb(const V &v) {
	std::string o;
	for (int i = 0; i < v.size(); i++) {
		o.push_back((char)v[i]);
	}
	return o;
}
} // namespace

VT_PROP(P06, encodings, 30000) {
	U t = codes(s, 16);
	c.note("%s", sh(t).c_str());
	String x = mk(t);
	std::string e8 = enc8(t);
	std::u16string e16 = enc16(t);
	bytes_same(c, bytes(x.utf8()), e8, "utf8");
	same(c, x.utf8_byte_length(), (int64_t)e8.size(), "utf8_byte_length");
	bytes_same(c, vb(x.to_utf8_buffer()), e8, "to_utf8_buffer");
	same(c, String::utf8(e8.c_str()), t, "the text of UTF-8");
	// a buffer of exactly that many bytes, without a terminator
	char *exact = new char[e8.size()];
	memcpy(exact, e8.data(), e8.size());
	String y;
	Error err = y.parse_utf8(exact, (int)e8.size());
	same(c, y, t, "the text of counted UTF-8");
	same(c, err, OK, "the status of counted UTF-8");
	delete[] exact;
	same(c, String::utf8(("\xef\xbb\xbf" + e8).c_str()), t, "the text after a byte order mark");
	String z;
	same(c, z.parse_utf8(e8.c_str(), -1, true), OK, "the status without carriage returns");
	U nocr;
	for (char32_t ch : t) {
		if (ch != '\r') {
			nocr.push_back(ch);
		}
	}
	same(c, z, nocr, "the text without carriage returns");
	Char16String u16 = x.utf16();
	c.check(std::u16string(u16.get_data(), u16.length()) == e16, "utf16 of %s", sh(t).c_str());
	same(c, x.utf16_byte_length(), (int64_t)e16.size(), "utf16_byte_length (in units)");
	same(c, String::utf16(e16.c_str()), t, "the text of UTF-16");
	same(c, String(u16), t, "the text of a UTF-16 string");
	char16_t *ex = new char16_t[e16.size()];
	memcpy(ex, e16.data(), e16.size() * 2);
	same(c, y.parse_utf16(ex, (int)e16.size()), OK, "the status of counted UTF-16");
	same(c, y, t, "the text of counted UTF-16");
	delete[] ex;
	std::u16string sw(1, (char16_t)0xfffe), be(1, (char16_t)0xfeff);
	be += e16;
	for (char16_t q : e16) {
		sw.push_back((char16_t)((q >> 8) | (q << 8)));
	}
	same(c, String::utf16(be.c_str()), t, "UTF-16 after a byte order mark");
	same(c, String::utf16(sw.c_str(), (int)sw.size()), t, "UTF-16 of the other byte order");
	std::string b16, b32, asc, lat;
	b16.assign((const char *)e16.data(), e16.size() * 2);
	b32.assign((const char *)t.data(), t.size() * 4);
	bytes_same(c, vb(x.to_utf16_buffer()), b16, "to_utf16_buffer");
	bytes_same(c, vb(x.to_utf32_buffer()), b32, "to_utf32_buffer");
	for (char32_t ch : t) {
		asc.push_back(ch < 0x80 ? (char)ch : ' ');
		lat.push_back(ch < 0x100 ? (char)ch : ' ');
	}
	bytes_same(c, bytes(x.ascii()), asc, "ascii");
	bytes_same(c, bytes(x.ascii(true)), lat, "ascii with Latin-1");
	bytes_same(c, vb(x.to_ascii_buffer()), asc, "to_ascii_buffer");
	c.nt(t.size() > 2 && e8.size() > t.size());
	c.no_errors("encoding");
}

// whatever the bytes, decoding is safe, and it reports success exactly for valid text
VT_PROP(P06, any_bytes, 40000) {
	std::string b = enc8(codes(s, 8));
	int m = (int)s.draw(5);
	for (int i = 0; i < m; i++) {
		static const unsigned char odd[] = { 0xc0, 0x80, 0xe0, 0xed, 0xa0, 0xf0, 0xf4, 0x90, 0xf8, 0xfc, 0xff, 0xbf, 0x8f, 0xc1, 0xfe };
		char ch = s.flag() ? (char)odd[s.draw(sizeof odd)] : (char)(1 + s.draw(255));
		size_t at = s.draw(b.size() + 1);
		int k = (int)s.draw(3);
		if (k == 0 || at == b.size()) {
			b.insert(at, 1, ch);
		} else if (k == 1) {
			b[at] = ch;
		} else {
			b.erase(at, 1);
		}
	}
	if (b.compare(0, 3, "\xef\xbb\xbf") == 0) {
		b[0] = 'x';
	}
	c.note("%s", hexs(b).c_str());
	bool cr = s.one_in(4);
	U want;
	bool valid = dec8(b, want);
	char *exact = new char[b.size()];
	memcpy(exact, b.data(), b.size());
	String x;
	Error err = x.parse_utf8(exact, (int)b.size(), cr);
	delete[] exact;
	whole(c, x, "the decoded text");
	c.check((err == OK) == valid, "decoding %s text reported %d", valid ? "valid" : "malformed", (int)err);
	if (valid) {
		if (cr) {
			U w;
			for (char32_t ch : want) {
				if (ch != '\r') {
					w.push_back(ch);
				}
			}
			want = w;
		}
		same(c, x, want, "the decoded text");
	}
	String again;
	Error e2 = again.parse_utf8(b.c_str(), -1, cr);
	c.check(e2 == err && again == x, "counted and terminated text decode differently");
	// and once more as UTF-16
	std::u16string w(b.size() / 2, u'a');
	memcpy(&w[0], b.data(), b.size() / 2 * 2);
	bool ok16 = true, lead = false;
	for (char16_t &q : w) {
		if (q == 0 || q == 0xfeff || q == 0xfffe) {
			q = 'x';
		}
		if (s.one_in(3)) {
			q = (char16_t)(0xd800 + s.draw(0x800));
		}
		if (q >= 0xd800 && q < 0xdc00) {
			ok16 = ok16 && !lead;
			lead = true;
		} else if (q >= 0xdc00 && q < 0xe000) {
			ok16 = ok16 && lead;
			lead = false;
		} else {
			ok16 = ok16 && !lead;
			lead = false;
		}
	}
	bool unended = lead;
	char16_t *ex = new char16_t[w.size()];
	memcpy(ex, w.data(), w.size() * 2);
	err = x.parse_utf16(ex, (int)w.size());
	delete[] ex;
	whole(c, x, "the decoded UTF-16");
	if (ok16 && !unended) {
		c.check(err == OK, "valid UTF-16 was refused");
		c.check(enc16(un(x)) == w, "valid UTF-16 decoded to %s", sh(x).c_str());
	}
	if (unended) {
		c.check(err != OK, "UTF-16 that ends in half a pair was accepted");
	}
	c.nt(m > 0 && b.size() > 3);
	c.no_errors("decoding");
}

VT_PROP(P06, escapes, 40000) {
	U t = s.flag() ? codes(s, 14) : ascii(s, 14, "\\\"'?%&<>;#nrtabfv+= 4xX/\n\t\r\a\b\f\v.-_~AZaz09");
	c.note("%s", sh(t).c_str());
	String x = mk(t);
	std::string e8 = enc8(t);
	// C
	U ce, cm;
	for (char32_t ch : t) {
		static const char from[] = "\\\a\b\f\n\r\t\v'?\"", to[] = "\\abfnrtv'?\"";
		const char *p = ch && ch < 128 ? strchr(from, (int)ch) : nullptr;
		if (p) {
			ce.push_back('\\');
			ce.push_back((char32_t)to[p - from]);
		} else {
			ce.push_back(ch);
		}
		if (ch == '\\' || ch == '"') {
			cm.push_back('\\');
		}
		cm.push_back(ch);
	}
	same(c, x.c_escape(), ce, "c_escape");
	same(c, x.c_escape().c_unescape(), t, "c_unescape after c_escape");
	same(c, x.c_escape_multiline(), cm, "c_escape_multiline");
	same(c, x.c_escape_multiline().c_unescape(), t, "c_unescape after c_escape_multiline");
	// XML
	for (int q = 0; q < 2; q++) {
		U xe;
		for (char32_t ch : t) {
			if (ch == '&') {
				xe += U"&amp;";
			} else if (ch == '<') {
				xe += U"&lt;";
			} else if (ch == '>') {
				xe += U"&gt;";
			} else if (q && ch == '\'') {
				xe += U"&apos;";
			} else if (q && ch == '"') {
				xe += U"&quot;";
			} else {
				xe.push_back(ch);
			}
		}
		same(c, x.xml_escape(q != 0), xe, "xml_escape");
		same(c, x.xml_escape(q != 0).xml_unescape(), t, "xml_unescape after xml_escape");
	}
	// URLs
	same(c, x.http_escape(), wide(pct(e8, ".-_~", true)), "http_escape");
	same(c, x.uri_encode(), wide(pct(e8, ".-_~", true)), "uri_encode");
	same(c, x.percent_encode(), wide(pct(e8, ".-_~", false)), "percent_encode");
	String all[] = { x.http_escape(), x.uri_encode(), x.percent_encode() };
	for (const String &e : all) {
		same(c, e.http_unescape(), t, "http_unescape");
		same(c, e.uri_decode(), t, "uri_decode");
		same(c, e.percent_decode(), t, "percent_decode");
	}
	// partly escaped text, as a person would write it
	U part;
	for (size_t i = 0; i < t.size(); i++) {
		if (t[i] == '%' || t[i] == '+' || s.flag()) {
			part += wide(pct(enc8(U(1, t[i])), "", s.flag()));
		} else {
			part.push_back(t[i]);
		}
	}
	same(c, mk(part).http_unescape(), t, "http_unescape of partly escaped text");
	same(c, mk(part).uri_decode(), t, "uri_decode of partly escaped text");
	same(c, mk(part).percent_decode(), t, "percent_decode of partly escaped text");
	U plus = t;
	for (auto &ch : plus) {
		ch = ch == '+' ? ' ' : ch;
	}
	U nopct;
	for (char32_t ch : t) {
		if (ch != '%') {
			nopct.push_back(ch);
		}
	}
	for (auto &ch : nopct) {
		ch = ch == ' ' ? '+' : ch;
	}
	U spaced = nopct;
	for (auto &ch : spaced) {
		ch = ch == '+' ? ' ' : ch;
	}
	if (!nopct.empty() && nopct[0] != 0xfeff) same(c, mk(nopct).uri_decode(), spaced, "uri_decode of text with plus signs");
	// JSON
	U jt;
	for (char32_t ch : t) {
		if (ch >= 32 || ch == '\n' || ch == '\r' || ch == '\t' || ch == '\b' || ch == '\f') {
			jt.push_back(ch);
		}
	}
	U je = un(mk(jt).json_escape()), jd;
	for (size_t i = 0; i < je.size(); i++) {
		c.check(je[i] >= 32 && je[i] != '"', "json_escape left %s", sh(U(1, je[i])).c_str());
		if (je[i] != '\\') {
			jd.push_back(je[i]);
			continue;
		}
		c.check(i + 1 < je.size(), "json_escape ends in a backslash");
		static const char from[] = "\"\\/bfnrt", to[] = "\"\\/\b\f\n\r\t";
		const char *p = je[i + 1] < 128 ? strchr(from, (int)je[i + 1]) : nullptr;
		c.check(p != nullptr, "json_escape made an unknown escape");
		jd.push_back((char32_t)to[p - from]);
		i++;
	}
	c.check(jd == jt, "json_escape reads as %s, expected %s", sh(jd).c_str(), sh(jt).c_str());
	// property names
	bool plain = true;
	for (char32_t ch : t) {
		plain = plain && ch > 32 && ch < 127 && !strchr("=\";[]", (int)ch);
	}
	same(c, x.property_name_encode(), plain ? t : U(1, '"') + cm + U(1, '"'), "property_name_encode");
	c.check(un(x) == t, "the text changed");
	c.nt(t.size() > 3 && ce.size() > t.size());
	c.no_errors("escaping");
}

VT_PROP(P06, entities, 15000) {
	int n = s.size(1, 6);
	U in, out;
	for (int i = 0; i < n; i++) {
		char32_t ch = code(s);
		char b[40];
		U e;
		switch (s.draw(7)) {
			case 0:
				snprintf(b, sizeof b, "&#%u;", (unsigned)ch);
				e = U(1, ch);
				break;
			case 1:
				snprintf(b, sizeof b, "&#x%x;", (unsigned)ch);
				e = U(1, ch);
				break;
			case 2:
				snprintf(b, sizeof b, "&#x%04X;", (unsigned)ch);
				e = U(1, ch);
				break;
			case 3: { // not entities: kept
				static const char *bad[] = { "&#0;", "&#x0;", "&#;", "&#x;", "&#12", "&#x1g;", "&#99999999999;", "&#xfffffffffff;", "&unknown;", "&", "&&", "&lt", "&am;", "& ;", "&#-5;", "&#+;" };
				snprintf(b, sizeof b, "%s", bad[s.draw(16)]);
				e = wide(b);
			} break;
			case 4: {
				static const char *good[] = { "&amp;", "&lt;", "&gt;", "&quot;", "&apos;" };
				int k = (int)s.draw(5);
				snprintf(b, sizeof b, "%s", good[k]);
				e = U(1, (char32_t)"&<>\"'"[k]);
			} break;
			default:
				b[0] = "ab;#x1"[s.draw(6)];
				b[1] = ' ';
				b[2] = 0;
				e = wide(b);
		}
		in += wide(b);
		in.push_back(' ');
		out += e;
		out.push_back(' ');
	}
	if (s.flag()) { // the last one at the very end
		in.pop_back();
		out.pop_back();
	}
	c.note("%s", sh(in).c_str());
	same(c, mk(in).xml_unescape(), out, "xml_unescape");
	c.nt(n > 1);
	c.no_errors("entities");
}

VT_PROP(P06, names, 20000) {
	U t = s.flag() ? ascii(s, 8, "aZ_09.:@/\"%-é") : codes(s, 8);
	c.note("%s", sh(t).c_str());
	String x = mk(t);
	U node = t, ident = t;
	for (auto &ch : node) {
		if (ch < 128 && strchr(".:@/\"%", (int)ch)) {
			ch = '_';
		}
	}
	auto idc = [](char32_t ch, size_t i) { return (ch >= 'a' && ch <= 'z') || (ch >= 'A' && ch <= 'Z') || ch == '_' || (i > 0 && ch >= '0' && ch <= '9'); };
	bool valid = !t.empty();
	for (size_t i = 0; i < t.size(); i++) {
		if (!idc(t[i], i)) {
			ident[i] = '_';
			valid = false;
		}
	}
	if (t.empty()) {
		ident = U(1, '_');
	}
	same(c, x.validate_node_name(), node, "validate_node_name");
	same(c, x.validate_identifier(), ident, "validate_identifier");
	same(c, x.is_valid_identifier(), valid, "is_valid_identifier");
	same(c, x.validate_identifier().is_valid_identifier(), true, "is_valid_identifier after validate_identifier");
	c.check(un(x) == t, "the text changed");
	bool file = !t.empty() && t[0] > 32 && t.back() > 32;
	for (char32_t ch : t) {
		file = file && !(ch < 128 && strchr(":/\\?*\"|%<>", (int)ch));
	}
	same(c, x.is_valid_filename(), file, "is_valid_filename");
	c.nt(t.size() > 2);
	c.no_errors("names");
}

VT_PROP(P06, urls, 15000) {
	std::string scheme, cred, host, port, path;
	if (!s.one_in(4)) {
		scheme = s.pick({ "http://", "HTTPS://", "ftp://", "s3://" });
	}
	if (s.one_in(3)) {
		cred = s.pick({ "user@", "user:secret@", ":@" });
	}
	bool v6 = s.one_in(4);
	host = v6 ? s.pick({ "::1", "FE80::1", "1:2:3:4:5:6:7:8" }) : s.pick({ "example.org", "LocalHost", "10.0.0.1", "a", "x-y.z" });
	int p = s.flag() ? (int)s.range(1, 65535) : 0;
	if (p) {
		port = ":" + std::to_string(p);
	}
	path = s.pick({ "", "/", "/a/b", "/a?x=1&y=2", "/A@b:c", "/#top" });
	std::string url = scheme + cred + (v6 ? "[" + host + "]" : host) + port + path;
	c.note("%s", url.c_str());
	String rs, rh, rp;
	int rport = -1;
	same(c, mk(wide(url)).parse_url(rs, rh, rport, rp), OK, "parse_url");
	auto lower = [](std::string a) {
		for (auto &ch : a) {
			ch = (char)tolower(ch);
		}
		return wide(a);
	};
	same(c, rs, lower(scheme), "the scheme");
	same(c, rh, lower(host), "the host");
	same(c, rport, p, "the port");
	same(c, rp, wide(path), "the path");
	// ports and hosts that cannot be
	std::string bad = scheme + (s.flag() ? "" : cred) + s.pick({ "host:0", "host:65536", "host:x", "host:", ":80", "", "[::1", "a:b:c", "host:-1", "host:99999" }) + s.pick({ "", "/p" });
	c.note("%s", bad.c_str());
	same(c, mk(wide(bad)).parse_url(rs, rh, rport, rp) == OK, false, "parse_url of a URL that cannot be");
	c.nt(!scheme.empty() && p > 0);
	c.no_errors("URLs");
}

VT_PROP(P06, wrapping, 15000) {
	int n = 1 + (int)s.draw(10), width = 1 + (int)s.draw(12);
	// paragraphs of words; spaces only between words
	U t, want, line;
	bool start = true;
	int words = 0;
	auto put = [&](const U &gap, const U &word) {
		if (line.empty()) {
			line = word;
		} else if ((int)(line.size() + gap.size() + word.size()) <= width) {
			line += gap + word;
		} else {
			want += line + U(1, '\n');
			line = word;
		}
		while ((int)line.size() > width) { // only a word of its own is this long
			want += line.substr(0, width) + U(1, '\n');
			line = line.substr(width);
		}
	};
	for (int i = 0; i < n; i++) {
		if (!start && s.one_in(5)) {
			t.push_back('\n');
			want += line + U(1, '\n');
			line.clear();
			start = true;
		}
		U gap, word;
		if (!start) {
			gap = U(1 + s.draw(2), s.one_in(4) ? '\t' : ' ');
		}
		int k = 1 + (int)s.draw(s.one_in(4) ? 20 : 5);
		for (int j = 0; j < k; j++) {
			word.push_back('a' + s.draw(26));
		}
		t += gap + word;
		put(gap, word);
		start = false;
		words++;
	}
	want += line;
	c.note("%s at %d", sh(t).c_str(), width);
	same(c, mk(t).word_wrap(width), want, "word_wrap");
	c.nt(words > 2 && want != t);
	c.no_errors("wrapping");
}

VT_PROP(P06, hex_digests, 5000) {
	int n = s.size(0, 40);
	std::string b;
	for (int i = 0; i < n; i++) {
		b.push_back((char)s.draw(256));
	}
	c.note("%s", hexs(b).c_str());
	same(c, String::hex_encode_buffer((const uint8_t *)b.data(), n), wide(hexs(b)), "hex_encode_buffer");
	if (n >= 16) {
		same(c, String::md5((const uint8_t *)b.data()), wide(hexs(b.substr(0, 16))), "md5");
	}
	c.nt(n > 2);
	c.no_errors("hex");
}

namespace {
int64_t gint(Src &s) { // of any size
	int bits = (int)s.draw(64);
	uint64_t v = ((uint64_t)s.draw(1ULL << 32) << 32 | s.draw(1ULL << 32)) >> (63 - bits);
	if (s.one_in(6)) {
		static const int64_t edge[] = { INT32_MAX, INT32_MIN, INT64_MAX, INT64_MIN, (int64_t)INT32_MAX + 1, (int64_t)INT32_MIN - 1, 0, -1, UINT32_MAX, (int64_t)UINT32_MAX + 1, INT64_MAX - 7, INT64_MIN + 8 };
		return edge[s.draw(12)];
	}
	return (int64_t)v;
}
std::string radix(uint64_t v, int base, bool up) {
	std::string o;
	do {
		int d = (int)(v % base);
		o.insert(o.begin(), (char)(d < 10 ? '0' + d : (up ? 'A' : 'a') + d - 10));
		v /= base;
	} while (v);
	return o;
}
uint64_t mag(int64_t v) { return v < 0 ? 0 - (uint64_t)v : (uint64_t)v; }
double gdouble(Src &s) {
	switch (s.draw(5)) {
		case 0:
			return (double)s.sint(1000);
		case 1:
			return (double)s.sint(1 << 20) / 64.0;
		case 2:
			return (double)s.sint(1LL << 40) / 1000003.0;
		case 3:
			return (s.flag() ? -1.0 : 1.0) * std::ldexp(1.0 + (double)s.draw(1ULL << 52) / (double)(1ULL << 52), (int)s.range(-60, 60));
		default:
			return (s.flag() ? -1.0 : 1.0) * std::ldexp(1.0 + (double)s.draw(1ULL << 52) / (double)(1ULL << 52), (int)s.range(-900, 1000));
	}
}
} // namespace

VT_PROP(P07, integers, 30000) {
	int64_t v = gint(s);
	int base = s.one_in(3) ? (int)s.range(2, 36) : s.pick({ 2, 8, 10, 16 });
	bool up = s.flag();
	c.note("%" PRId64 " base %d", v, base);
	std::string sg = v < 0 ? "-" : "", dec = std::to_string(v);
	same(c, String::num_int64(v, base, up), wide(sg + radix(mag(v), base, up)), "num_int64");
	same(c, String::num_uint64((uint64_t)v, base, up), wide(radix((uint64_t)v, base, up)), "num_uint64");
	same(c, String::num_int64(v), wide(dec), "num_int64 in tens");
	same(c, itos(v), wide(dec), "itos");
	same(c, uitos((uint64_t)v), wide(std::to_string((uint64_t)v)), "uitos");
	same(c, String::num_characters(v), (int64_t)dec.size(), "num_characters");
	String x = itos(v);
	same(c, x.to_int64(), v, "to_int64");
	same(c, String::to_int(dec.c_str()), v, "to_int of a C string");
	same(c, String::to_int(dec.c_str(), (int)dec.size()), v, "to_int of a counted C string");
	same(c, String::to_int(std::wstring(dec.begin(), dec.end()).c_str()), v, "to_int of wide characters");
	same(c, String::to_int(x.get_data()), v, "to_int of characters");
	U more = wide(dec) + U(U"77");
	same(c, String::to_int(more.c_str(), (int)dec.size()), v, "to_int of counted characters");
	if (v >= 0) {
		same(c, String::to_int(("+" + dec).c_str() + 1), v, "to_int");
		same(c, String::to_int(mk(wide("+" + dec)).get_data()), v, "to_int after a plus sign");
	}
	if (v >= INT32_MIN && v <= INT32_MAX) {
		same(c, x.to_int(), v, "to_int of a string");
		same(c, mk(wide(dec + ".75")).to_int(), v, "to_int of a string with a fraction");
		same(c, mk(wide("." + dec)).to_int(), 0, "to_int of a fraction alone");
	}
	if (v >= 0 && v <= UINT32_MAX) {
		same(c, (int64_t)x.to_uint(), v, "to_uint");
	}
	same(c, mk(wide(dec + ".75")).to_int64(), v, "to_int64 with a fraction");
	std::string hx = radix(mag(v), 16, up), bn = radix(mag(v), 2, false);
	same(c, mk(wide(sg + "0x" + hx)).hex_to_int64(), v, "hex_to_int64");
	same(c, mk(wide(sg + hx)).hex_to_int64(false), v, "hex_to_int64 without prefix");
	same(c, mk(wide(sg + "0b" + bn)).bin_to_int64(), v, "bin_to_int64");
	same(c, mk(wide(sg + bn)).bin_to_int64(false), v, "bin_to_int64 without prefix");
	if (v >= INT32_MIN && v <= INT32_MAX) {
		same(c, mk(wide(sg + "0x" + hx)).hex_to_int(), v, "hex_to_int");
		same(c, mk(wide(sg + hx)).hex_to_int(false), v, "hex_to_int without prefix");
	}
	same(c, x.is_valid_integer(), true, "is_valid_integer");
	same(c, x.is_valid_unsigned_integer(), v >= 0, "is_valid_unsigned_integer");
	same(c, x.is_numeric(), true, "is_numeric");
	same(c, x.is_zero(), v == 0, "is_zero");
	same(c, x.is_valid_float(), true, "is_valid_float");
	same(c, mk(wide(sg + "0x" + hx)).is_valid_hex_number(true), true, "is_valid_hex_number");
	same(c, mk(wide(sg + hx)).is_valid_hex_number(false), true, "is_valid_hex_number without prefix");
	same(c, x.to_bool(), v != 0, "to_bool");
	c.errors(); // to_bool goes through 32 bits
	c.nt(mag(v) > 100);
}

VT_PROP(P07, too_large, 8000) {
	// numbers outside the range give the nearest end and a diagnostic
	bool neg = s.flag();
	uint64_t beyond = s.one_in(2) ? s.draw(3) : s.draw(1000000);
	std::string d32 = std::to_string((neg ? 2147483649ULL : 2147483648ULL) + beyond);
	std::string d64 = std::to_string((neg ? 9223372036854775809ULL : 9223372036854775808ULL) + beyond);
	std::string sg = neg ? "-" : "";
	c.note("%s%s %s%s", sg.c_str(), d32.c_str(), sg.c_str(), d64.c_str());
	String x = mk(wide(sg + d32)), y = mk(wide(sg + d64));
	c.errors();
	same(c, x.to_int(), neg ? INT32_MIN : INT32_MAX, "to_int out of range");
	c.check(c.errors() > 0, "to_int out of range gave no diagnostic");
	int64_t end = neg ? INT64_MIN : INT64_MAX;
	same(c, y.to_int64(), end, "to_int64 out of range");
	c.check(c.errors() > 0, "to_int64 out of range gave no diagnostic");
	same(c, String::to_int((sg + d64).c_str()), end, "to_int of a C string out of range");
	c.check(c.errors() > 0, "to_int of a C string out of range gave no diagnostic");
	same(c, String::to_int(y.get_data()), end, "to_int of characters out of range");
	c.check(c.errors() > 0, "to_int of characters out of range gave no diagnostic");
	same(c, String::to_int(y.get_data(), -1, true), end, "to_int clamped");
	c.no_errors("clamping");
	c.nt();
}

VT_PROP(P07, reals, 30000) {
	double v = gdouble(s);
	int d = (int)s.range(-1, 18);
	c.note("%.17g with %d", v, d);
	char b[512];
	int dd = d > 16 ? 16 : d;
	if (dd < 0) {
		snprintf(b, sizeof b, "%f", v);
	} else {
		snprintf(b, sizeof b, "%.*f", dd, v);
	}
	std::string w = b;
	if (w.find('.') != std::string::npos) {
		while (w.back() == '0') {
			w.pop_back();
		}
		if (w.back() == '.') {
			w.pop_back();
		}
	}
	same(c, String::num(v, d), wide(w), "num");
	snprintf(b, sizeof b, "%g", v);
	same(c, String::num_scientific(v), wide(b), "num_scientific");
	same(c, rtos(v), un(String::num(v)), "rtos");
	same(c, rtoss(v), wide(b), "rtoss");
	String r = String::num_real(v);
	whole(c, r, "num_real");
	c.check(r.find(".") > 0 || r.find(".") == 0, "num_real without a point: %s", sh(r).c_str());
	double av = std::fabs(v);
	if (av < 1e5) { // beyond, the six decimals it prints get lost in the steps it takes
		c.near(r.to_double(), v, 1.1e-6, "num_real");
	} else {
		c.near(r.to_double(), v, 1.1e-6 + 1e-14 * av + (av < 1e15 ? 2e-6 : 0), "num_real");
	}
	// reading numbers
	snprintf(b, sizeof b, s.pick({ "%.17g", "%.10e", "%.15g", "%.3E" }), v);
	double ref = strtod(b, nullptr);
	// eighteen digits count, from the very first one, be it a zero
	double tol = 4e-15 * std::fabs(ref) + (strpbrk(b, "eE") ? 0 : 1e-17);
	c.note("%s", b);
	String t = mk(wide(b));
	c.near(t.to_double(), ref, tol, "to_double");
	c.near(String::to_double(b), ref, tol, "to_double of a C string");
	c.near(String::to_float(b), ref, tol, "to_float of a C string");
	c.check(t.to_float() == (float)t.to_double(), "to_float");
	const char32_t *end = nullptr;
	U more = wide(b) + U(U" 5");
	c.near(String::to_double(more.c_str(), &end), ref, tol, "to_double of characters");
	same(c, end - more.c_str(), (int64_t)strlen(b), "where the number ended");
	std::wstring wb(more.begin(), more.end());
	const wchar_t *wend = nullptr;
	const double got = t.to_double();
	c.check(String::to_double(wb.c_str(), &wend) == got, "to_double of wide characters");
	same(c, wend - wb.c_str(), (int64_t)strlen(b), "where the wide number ended");
	wend = nullptr;
	end = nullptr;
	c.check(String::to_float(wb.c_str(), &wend) == got && String::to_float(wb.c_str()) == got, "to_float of wide characters");
	c.check(String::to_float(more.c_str(), &end) == got && String::to_float(more.c_str()) == got, "to_float of characters");
	same(c, wend - wb.c_str(), (int64_t)strlen(b), "where the wide number ended");
	same(c, end - more.c_str(), (int64_t)strlen(b), "where the number ended");
	c.check(t.to_real() == (real_t)got && String::to_real(b) == (real_t)got, "to_real");
	c.check(String::to_real(wb.c_str()) == (real_t)got && String::to_real(more.c_str()) == (real_t)got, "to_real of characters");
	same(c, String("  +1.5").to_double() == 1.5, true, "blanks and a plus sign");
	if (strchr(b, 'E') == nullptr) {
		same(c, t.is_valid_float(), true, "is_valid_float");
	}
	c.nt(v != 0);
	c.no_errors("reals");
}

VT_PROP(P07, long_decimals, 8000) {
	// decimals as people write them: up to 16 digits on each side
	std::string t;
	int a = (int)s.draw(17), f = (int)s.draw(17);
	if (s.flag()) {
		t += "-";
	}
	if (a == 0 && f == 0) {
		a = 1;
	}
	for (int i = 0; i < a; i++) {
		t.push_back((char)('0' + s.draw(10)));
	}
	if (f) {
		t.push_back('.');
		for (int i = 0; i < f; i++) {
			t.push_back((char)('0' + s.draw(10)));
		}
	}
	if (s.one_in(3)) {
		t += s.pick({ "e", "E" });
		t += std::to_string(s.range(-40, 40));
	}
	c.note("%s", t.c_str());
	double ref = strtod(t.c_str(), nullptr);
	size_t e = t.find_first_of("eE");
	double scale = e == std::string::npos ? 1 : std::pow(10.0, atoi(t.c_str() + e + 1));
	// digits after the eighteenth do not count
	double last = a > 2 ? std::pow(10.0, a - 18) : 1e-17;
	c.near(mk(wide(t)).to_double(), ref, 4e-15 * std::fabs(ref) + scale * (last > 1e-17 ? last : 1e-17), "to_double");
	c.near(String::to_double(t.c_str()), mk(wide(t)).to_double(), 0, "to_double of a C string");
	c.nt(t.size() > 3);
	c.no_errors("decimals");
}

VT_PROP(P07, validity, 30000) {
	static const char *alphabets[] = { "01", "0129+-", "019.e+-", "0x19afAF-g", "tTrueFfalse01" };
	int k = (int)s.draw(5);
	U t = ascii(s, 7, alphabets[k]);
	if (k == 4 && s.flag()) {
		t = wide(s.pick({ "true", "false", "True", "FALSE", "falsE", "falso", "fals", "truee", "tru", "0", "1", "2", "01" }));
	}
	if (k == 3 && s.flag()) {
		t = U(U"0x") + t;
		if (s.flag()) {
			t = U(1, s.flag() ? '-' : '+') + t;
		}
	}
	c.note("%s", sh(t).c_str());
	String x = mk(t);
	auto dig = [](char32_t ch) { return ch >= '0' && ch <= '9'; };
	auto hexd = [&](char32_t ch) { return dig(ch) || (ch >= 'a' && ch <= 'f') || (ch >= 'A' && ch <= 'F'); };
	auto all = [](const U &u, size_t from, auto f) {
		for (size_t i = from; i < u.size(); i++) {
			if (!f(u[i])) {
				return false;
			}
		}
		return u.size() > from;
	};
	size_t sg = !t.empty() && (t[0] == '+' || t[0] == '-') ? 1 : 0;
	same(c, x.is_valid_integer(), all(t, sg, dig), "is_valid_integer");
	same(c, x.is_valid_unsigned_integer(), all(t, !t.empty() && t[0] == '+' ? 1 : 0, dig), "is_valid_unsigned_integer");
	same(c, x.is_valid_hex_number(false), all(t, sg, hexd), "is_valid_hex_number without prefix");
	same(c, x.is_valid_hex_number(true), t.size() > sg + 2 && t[sg] == '0' && t[sg + 1] == 'x' && all(t, sg + 2, hexd), "is_valid_hex_number");
	// digits with at most one point, then perhaps e, a sign and digits
	size_t i = sg;
	int nd = 0, pts = 0;
	while (i < t.size() && (dig(t[i]) || (t[i] == '.' && pts == 0))) {
		nd += dig(t[i]);
		pts += t[i] == '.';
		i++;
	}
	bool fl = nd > 0, open = false;
	if (fl && i < t.size()) {
		if (t[i] == 'e') {
			i++;
			if (i < t.size() && (t[i] == '+' || t[i] == '-')) {
				i++;
			}
			open = i == t.size(); // an exponent that is yet to come
			fl = open || all(t, i, dig);
		} else {
			fl = false;
		}
	}
	if (!open) {
		same(c, x.is_valid_float(), fl, "is_valid_float");
	}
	if (nd > 0 || (t != U(U"-") && t != U(U".") && t != U(U"-."))) {
		size_t from = !t.empty() && t[0] == '-' ? 1 : 0;
		int points = 0;
		bool ok = !t.empty(), zero = !t.empty();
		for (size_t q = from; q < t.size(); q++) {
			points += t[q] == '.';
			ok = ok && (dig(t[q]) || t[q] == '.') && points <= 1;
			zero = zero && (t[q] == '0' || t[q] == '.') && points <= 1;
		}
		same(c, x.is_numeric(), ok, "is_numeric");
		same(c, x.is_zero(), zero, "is_zero");
	}
	U l = t;
	for (auto &ch : l) {
		ch = ch >= 'A' && ch <= 'Z' ? ch + 32 : ch;
	}
	bool tr = l == U(U"true"), fa = l == U(U"false");
	same(c, x.is_valid_bool(), tr || fa || t == U(U"0") || t == U(U"1"), "is_valid_bool");
	if (tr || fa) {
		same(c, x.to_bool(), tr, "to_bool");
	}
	same(c, String::bool_str(tr), wide(tr ? "true" : "false"), "bool_str");
	same(c, String::bool_num(tr), wide(tr ? "1" : "0"), "bool_num");
	c.nt(t.size() > 1);
	c.no_errors("validity");
}

VT_PROP(P07, addresses_and_sizes, 15000) {
	std::string t;
	bool valid = true;
	int parts = s.one_in(4) ? (int)s.range(1, 6) : 4;
	valid = parts == 4;
	for (int i = 0; i < parts; i++) {
		int v = s.one_in(5) ? (int)s.range(256, 1000) : (int)s.range(0, 255);
		valid = valid && v <= 255;
		t += (i ? "." : "") + std::to_string(v);
		if (s.one_in(20)) {
			t += s.pick({ "x", "", "-" });
			valid = valid && isdigit((unsigned char)t.back());
		}
	}
	c.note("%s", t.c_str());
	same(c, mk(wide(t)).is_valid_ip_address(), valid, "is_valid_ip_address");
	t.clear();
	valid = true;
	for (int i = 0; i < 8; i++) {
		char b[16];
		unsigned v = s.one_in(12) ? 0x10000 + (unsigned)s.draw(0x10000) : (unsigned)s.draw(0x10000);
		valid = valid && v <= 0xffff;
		snprintf(b, sizeof b, s.flag() ? "%x" : "%04X", v);
		t += std::string(i ? ":" : "") + b;
	}
	if (s.one_in(4)) {
		t += "g";
		valid = false;
	}
	c.note("%s", t.c_str());
	same(c, mk(wide(t)).is_valid_ip_address(), valid, "is_valid_ip_address of version 6");
	for (const char *short6 : { "::1", "fe80::1", "::ffff:1.2.3.4" }) {
		same(c, String(short6).is_valid_ip_address(), true, "is_valid_ip_address of a short form");
	}
	uint64_t v = mag(gint(s));
	c.note("%" PRIu64, v);
	U h = un(String::humanize_size(v));
	size_t sp = h.find(U' ');
	c.check(sp != U::npos, "humanize_size gave %s", sh(h).c_str());
	static const char *unit[] = { "B", "KiB", "MiB", "GiB", "TiB", "PiB", "EiB" };
	int k = -1;
	for (int i = 0; i < 7; i++) {
		if (h.substr(sp + 1) == wide(unit[i])) {
			k = i;
		}
	}
	c.check(k >= 0, "humanize_size gave %s", sh(h).c_str());
	double num = mk(h.substr(0, sp)).to_double(), real = (double)v / std::ldexp(1, 10 * k);
	if (k == 0) {
		c.check(num == (double)v && v <= 1024, "humanize_size of %" PRIu64 " gave %s", v, sh(h).c_str());
	} else {
		c.check(real > 1 - 1e-9 && real <= 1024.0001, "humanize_size of %" PRIu64 " gave %s", v, sh(h).c_str());
		c.near(num, real, real < 100 ? 0.0101 : real < 1024 ? 0.101 : 1.01, "humanize_size");
	}
	c.nt(v > 1024);
	c.no_errors("addresses and sizes");
}

namespace {
U comp(Src &s) { // one name of a path
	static const char32_t of[] = { 'a', 'b', '.', '-', ' ', 0xe9, 0x12f, 0x4e2d };
	int n = 1 + (int)s.draw(4);
	U u;
	for (int i = 0; i < n; i++) {
		u.push_back(of[s.draw(s.flag() ? 3 : 8)]);
	}
	if (u == U(U".") || u == U(U"..")) {
		u = U(U"x");
	}
	return u;
}
U joinu(const std::vector<U> &v, size_t from = 0) {
	U o;
	for (size_t i = from; i < v.size(); i++) {
		o += (i > from ? U(U"/") : U()) + v[i];
	}
	return o;
}
} // namespace

VT_PROP(P08, parts, 30000) {
	// one character alone
	U lone(1, s.pick({ U'/', U'\\', U'a', U'.', U':', U'Z' }));
	same(c, mk(lone).is_abs_path(), lone == U(U"/") || lone == U(U"\\"), "is_abs_path of one character");
	same(c, mk(lone).is_rel_path(), !(lone == U(U"/") || lone == U(U"\\")), "is_rel_path of one character");
	same(c, String().is_abs_path(), false, "is_abs_path of nothing");
	// a root and names
	U root = U(s.pick({ U"/", U"", U"res://", U"user://", U"C:/" }));
	int n = 1 + (int)s.draw(4);
	std::vector<U> v;
	for (int i = 0; i < n; i++) {
		v.push_back(comp(s));
	}
	U t = root + joinu(v);
	c.note("%s", sh(t).c_str());
	String x = mk(t);
	same(c, x.get_file(), v.back(), "get_file");
	std::vector<U> dirs(v.begin(), v.end() - 1);
	same(c, x.get_base_dir(), root + joinu(dirs), "get_base_dir");
	same(c, mk(root + joinu(dirs)).plus_file(mk(v.back())), t, "plus_file");
	if (n > 1 || !root.empty()) {
		same(c, x.get_base_dir().plus_file(x.get_file()), t, "plus_file of the parts");
	}
	size_t dot = v.back().rfind(U'.');
	same(c, x.get_extension(), dot == U::npos ? U() : v.back().substr(dot + 1), "get_extension");
	same(c, x.get_basename(), dot == U::npos ? t : t.substr(0, t.size() - v.back().size() + dot), "get_basename");
	bool abs = !root.empty();
	same(c, x.is_abs_path(), abs, "is_abs_path");
	same(c, x.is_rel_path(), !abs, "is_rel_path");
	same(c, x.is_resource_file(), root == U(U"res://"), "is_resource_file");
	same(c, x.simplify_path(), t, "simplify_path of a simple path");
	// the same path, written with detours
	U messy = root;
	for (int i = 0; i < n; i++) {
		int k = (int)s.draw(8);
		const char32_t *sep = i + 1 < n ? (s.one_in(3) ? U"//" : s.one_in(3) ? U"\\" : U"/") : U"";
		if (k == 0) {
			messy += U(U"./");
		} else if (k == 1) {
			messy += comp(s) + U(U"/../");
		} else if (k == 2) {
			messy += comp(s) + U(U"//") + comp(s) + U(U"/.././../");
		}
		messy += v[i] + sep;
	}
	if (s.one_in(3)) {
		messy += s.pick({ U"/", U"/.", U"/q/..", U"/q/../" });
	}
	c.note("%s", sh(messy).c_str());
	bool rooted_twice = root == U(U"/") && messy.size() > 1 && (messy[1] == '/' || messy[1] == '\\');
	if (!rooted_twice && messy.find(U":\\") == U::npos) {
		same(c, mk(messy).simplify_path(), t, "simplify_path");
	}
	same(c, mk(messy).simplify_path().simplify_path(), un(mk(messy).simplify_path()), "simplify_path twice");
	// never above the root
	U up = root;
	int ups = 1 + (int)s.draw(3);
	for (int i = 0; i < ups; i++) {
		up += U(U"../");
	}
	same(c, mk(up + joinu(v)).simplify_path(), t, "simplify_path above the root");
	// end slashes
	U sl = t + U(s.draw(3), s.flag() ? '/' : '\\');
	same(c, mk(sl).path_clean_end_slash(), t, "path_clean_end_slash");
	same(c, x.path_ensure_end_slash(), t + U(1, '/'), "path_ensure_end_slash");
	same(c, x.path_ensure_end_slash().path_ensure_end_slash(), t + U(1, '/'), "path_ensure_end_slash twice");
	same(c, x.path_ensure_end_slash().path_clean_end_slash(), t, "path_clean_end_slash after path_ensure_end_slash");
	same(c, String().path_clean_end_slash(), U(), "path_clean_end_slash of nothing");
	same(c, String().path_ensure_end_slash(), U(), "path_ensure_end_slash of nothing");
	// appending
	U add = comp(s);
	std::vector<U> more = v;
	more.push_back(add);
	U tail = U(s.draw(3), s.flag() ? '/' : '\\'), lead = U(s.draw(3), s.flag() ? '/' : '\\');
	if (tail.size() > 1) {
		tail.resize(1);
	}
	U want = tail.empty() ? root + joinu(more) : t + tail + add;
	same(c, mk(t + tail).append_path(mk(lead + add)), want, "append_path");
	bool lat = true;
	for (char32_t ch : add) {
		lat = lat && ch < 256;
	}
	if (lat) {
		std::string b;
		for (char32_t ch : lead + add) {
			b.push_back((char)ch);
		}
		same(c, mk(t + tail).append_path(b.c_str()), want, "append_path of a C string");
	}
	same(c, x.append_path(mk(lead)), t, "append_path of slashes");
	same(c, x.append_path(std::string(lead.size(), '/').c_str()), t, "append_path of slashes in a C string");
	same(c, String().append_path(mk(lead + add)), lead + add, "append_path to nothing");
	if (n > 1) {
		same(c, mk(sl).path_get_prev_dir(), root + joinu(dirs), "path_get_prev_dir");
	}
	c.check(un(x) == t, "the path changed");
	c.nt(n > 1);
	c.no_errors("paths");
}

VT_PROP(P08, relative, 20000) {
	U root = U(s.pick({ U"/", U"res://", U"user://", U"C:/" }));
	int a = (int)s.draw(4), b = (int)s.draw(4), k = (int)s.draw(4);
	// names that begin alike, differ in case only or hold blanks, dots and other letters
	auto name = [&]() { return s.flag() ? U(1, 'a' + s.draw(3)) : U(s.pick({ U"A", U"aa", U"ab", U"a.b", U"a b", U"\u00e9", U"\u00c9", U"B", U".a", U"..." })); };
	std::vector<U> va, vb;
	for (int i = 0; i < k; i++) {
		va.push_back(name());
	}
	vb = va;
	for (int i = 0; i < a; i++) {
		va.push_back(name());
	}
	for (int i = 0; i < b; i++) {
		vb.push_back(name());
	}
	U from = root + joinu(va), to = root + joinu(vb);
	bool slash = s.flag() && !va.empty();
	c.note("%s %s", sh(from).c_str(), sh(to).c_str());
	size_t common = 0;
	while (common < va.size() && common < vb.size() && va[common] == vb[common]) {
		common++;
	}
	U want;
	for (size_t i = common; i < va.size(); i++) {
		want += U(U"../");
	}
	for (size_t i = common; i < vb.size(); i++) {
		want += vb[i] + U(1, '/');
	}
	if (want.empty()) {
		want = U(U"./");
	}
	String rel = mk(slash ? from + U(1, '/') : from).path_to(mk(to));
	same(c, rel, want, "path_to");
	same(c, mk(from).plus_file(rel).simplify_path(), to, "following path_to");
	U file = (vb.empty() ? to : to + U(1, '/')) + U(U"f.txt");
	String rf = mk(from).path_to_file(mk(file));
	same(c, rf, want + U(U"f.txt"), "path_to_file");
	same(c, mk(from).plus_file(rf).simplify_path(), file, "following path_to_file");
	c.nt(k > 0 && a > 0 && b > 0);
	c.no_errors("relative paths");
}
