// P16: images.  The reference keeps the pixels of the base level as bytes, and works on them pixel by pixel.
#include "scratch.h"
#include "str.h"
#include "image.h"
#include <algorithm>
#include <cmath>
#include <cstring>
#include <vector>

namespace {
typedef Image I;
typedef std::vector<uint8_t> Bytes;

int ps(int f) { // bytes of a pixel
	static const int n[] = { 1, 2, 1, 2, 3, 4, 2, 2, 4, 8, 12, 16 };
	return n[f];
}
bool is_float(int f) { return f >= I::FORMAT_RF; }
bool is_byte(int f) { return f <= I::FORMAT_RGBA8; }
bool is_packed(int f) { return f == I::FORMAT_RGBA4444 || f == I::FORMAT_RGBA5551; }
bool has_alpha(int f) { return f == I::FORMAT_LA8 || f == I::FORMAT_RGBA8 || is_packed(f) || f == I::FORMAT_RGBAF; }
int chans(int f) { return is_float(f) ? ps(f) / 4 : ps(f); }

struct Col {
	double v[4];
};
Col read(int f, const uint8_t *p) {
	Col c = { { 0, 0, 0, 1 } };
	if (is_float(f)) {
		for (int i = 0; i < chans(f); i++) {
			float x;
			memcpy(&x, p + 4 * i, 4);
			c.v[i] = x;
		}
	} else if (f == I::FORMAT_L8 || f == I::FORMAT_LA8) {
		c.v[0] = c.v[1] = c.v[2] = p[0] / 255.0;
		if (f == I::FORMAT_LA8) {
			c.v[3] = p[1] / 255.0;
		}
	} else if (is_packed(f)) {
		uint16_t u;
		memcpy(&u, p, 2);
		if (f == I::FORMAT_RGBA4444) {
			for (int i = 0; i < 4; i++) {
				c.v[i] = (u >> (12 - 4 * i) & 15) / 15.0;
			}
		} else {
			c.v[0] = (u >> 11) / 31.0;
			c.v[1] = (u >> 6 & 31) / 31.0;
			c.v[2] = (u >> 1 & 31) / 31.0;
			c.v[3] = u & 1;
		}
	} else {
		for (int i = 0; i < ps(f); i++) {
			c.v[i] = p[i] / 255.0;
		}
	}
	return c;
}
// the size of the steps in which a channel can be stored
double step(int f, int ch) {
	if (is_float(f)) {
		return 0;
	}
	if (f == I::FORMAT_RGBA4444) {
		return 1 / 15.0;
	}
	if (f == I::FORMAT_RGBA5551) {
		return ch == 3 ? 1 : 1 / 31.0;
	}
	return 1 / 255.0;
}

struct M {
	int f = 0, w = 0, h = 0;
	bool mip = false;
	Bytes px; // the base level
	uint8_t *at(int x, int y) { return &px[(size_t)(y * w + x) * ps(f)]; }
	const uint8_t *at(int x, int y) const { return &px[(size_t)(y * w + x) * ps(f)]; }
};

Bytes shrink(const Bytes &b, int f, int w, int h) { // the next mipmap: each pixel the mean of four
	int n = chans(f), W = std::max(w / 2, 1), H = std::max(h / 2, 1);
	Bytes o((size_t)W * H * ps(f));
	for (int y = 0; y < H; y++) {
		for (int x = 0; x < W; x++) {
			int xs[2] = { w == 1 ? 0 : 2 * x, w == 1 ? 0 : 2 * x + 1 }, ys[2] = { h == 1 ? 0 : 2 * y, h == 1 ? 0 : 2 * y + 1 };
			for (int k = 0; k < n; k++) {
				if (is_float(f)) {
					double s = 0;
					for (int a = 0; a < 4; a++) {
						float v;
						memcpy(&v, &b[(size_t)(ys[a / 2] * w + xs[a % 2]) * ps(f) + 4 * k], 4);
						s += v;
					}
					float v = (float)(s / 4);
					memcpy(&o[(size_t)(y * W + x) * ps(f) + 4 * k], &v, 4);
				} else {
					int s = 2;
					for (int a = 0; a < 4; a++) {
						s += b[(size_t)(ys[a / 2] * w + xs[a % 2]) * ps(f) + k];
					}
					o[(size_t)(y * W + x) * ps(f) + k] = s / 4;
				}
			}
		}
	}
	return o;
}

void same_level(Ctx &c, int f, const uint8_t *got, const Bytes &want, int w, const char *what) {
	for (size_t i = 0; i < want.size(); i++) {
		if (is_float(f)) {
			float a, b;
			memcpy(&a, got + (i & ~3ull), 4);
			memcpy(&b, &want[i & ~3ull], 4);
			c.near(a, b, 1e-5 * (1 + std::fabs(b)), "%s, pixel (%d, %d)", what, (int)(i / ps(f)) % w, (int)(i / ps(f)) / w);
			i |= 3;
		} else {
			c.check(got[i] == want[i], "%s, pixel (%d, %d), byte %d is %d, expected %d", what, (int)(i / ps(f)) % w, (int)(i / ps(f)) / w, (int)(i % ps(f)), got[i], want[i]);
		}
	}
}

// the image is the reference; with fresh, its mipmaps are those of its pixels
void verify(Ctx &c, const Ref<Image> &img, const M &m, bool fresh, const char *what) {
	c.check(img->get_format() == m.f, "%s: format %d, expected %d", what, (int)img->get_format(), m.f);
	c.check(img->get_width() == m.w && img->get_height() == m.h, "%s: %d x %d, expected %d x %d", what, img->get_width(), img->get_height(), m.w, m.h);
	c.check(img->get_size() == Vector2(m.w, m.h), "%s: get_size", what);
	c.check(img->has_mipmaps() == m.mip, "%s: has_mipmaps is %d, expected %d", what, img->has_mipmaps(), m.mip);
	c.check(!img->empty() && !img->is_compressed(), "%s: empty or compressed", what);
	c.check(!img->write_lock, "%s: the image was left locked", what);
	size_t total = 0;
	int w = m.w, h = m.h, level = 0;
	Bytes b = m.px;
	while (true) {
		int ofs, size, mw, mh;
		img->get_mipmap_offset_size_and_dimensions(level, ofs, size, mw, mh);
		c.check(ofs == (int)total && size == w * h * ps(m.f) && mw == w && mh == h, "%s: mipmap %d is %d bytes at %d, %d x %d, expected %d bytes at %d, %d x %d", what, level, size, ofs, mw, mh, w * h * ps(m.f), (int)total, w, h);
		c.check(img->get_mipmap_offset(level) == (int)total && I::get_image_mipmap_offset(m.w, m.h, (I::Format)m.f, level) == (int)total, "%s: offset of mipmap %d", what, level);
		int o2, s2;
		img->get_mipmap_offset_and_size(level, o2, s2);
		c.check(o2 == ofs && s2 == size, "%s: get_mipmap_offset_and_size of %d", what, level);
		total += size;
		c.check(img->get_data_size() >= (int)total, "%s: %d bytes, no room for mipmap %d", what, img->get_data_size(), level);
		if (level == 0 || fresh) {
			char t[120];
			snprintf(t, sizeof t, "%s: mipmap %d", what, level);
			same_level(c, m.f, img->datar() + ofs, b, w, t);
		}
		if (!m.mip || (w == 1 && h == 1)) {
			break;
		}
		if (fresh) {
			b = shrink(b, m.f, w, h);
		}
		w = std::max(w / 2, 1);
		h = std::max(h / 2, 1);
		level++;
	}
	c.check(img->get_mipmap_count() == level, "%s: %d mipmaps, expected %d", what, img->get_mipmap_count(), level);
	if (m.mip) {
		c.check(I::get_image_required_mipmaps(m.w, m.h, (I::Format)m.f) == level, "%s: required mipmaps", what);
	}
	c.check(img->get_data_size() == (int)total && I::get_image_data_size(m.w, m.h, (I::Format)m.f, m.mip) == (int)total, "%s: %d bytes, expected %d", what, img->get_data_size(), (int)total);
}

void gen_pixel(Src &s, int f, uint8_t *p) {
	if (is_float(f)) {
		for (int i = 0; i < chans(f); i++) {
			float v = s.one_in(3) ? (float)s.draw(2) : s.real(2);
			memcpy(p + 4 * i, &v, 4);
		}
	} else {
		for (int i = 0; i < ps(f); i++) {
			p[i] = s.one_in(3) ? (s.flag() ? 255 : 0) : (uint8_t)s.draw(256);
		}
	}
}
// pixels out of a few different ones, so that the cases stay small
void gen_pixels(Src &s, M &m) {
	int n = 1 + (int)s.draw(5);
	Bytes pal((size_t)n * 16);
	for (int i = 0; i < n; i++) {
		gen_pixel(s, m.f, &pal[16 * (size_t)i]);
	}
	bool plain = s.one_in(3);
	m.px.resize((size_t)m.w * m.h * ps(m.f));
	for (int i = 0; i < m.w * m.h; i++) {
		if (!plain && s.one_in(4)) {
			gen_pixel(s, m.f, &m.px[(size_t)i * ps(m.f)]);
		} else {
			memcpy(&m.px[(size_t)i * ps(m.f)], &pal[16 * (size_t)s.draw(n)], ps(m.f));
		}
	}
}
M gen(Src &s, int maxdim, int f = -1) {
	M m;
	m.f = f >= 0 ? f : (int)s.draw(I::FORMAT_MAX);
	m.w = 1 + (int)s.draw(maxdim);
	m.h = 1 + (int)s.draw(maxdim);
	gen_pixels(s, m);
	return m;
}
Ref<Image> make(const M &m) {
	Vector<uint8_t> d;
	d.resize((int)m.px.size());
	memcpy(d.ptrw(), m.px.data(), m.px.size());
	return Ref<Image>(memnew(Image(m.w, m.h, false, (I::Format)m.f, d)));
}
Color gen_color(Src &s) {
	float v[4];
	for (int i = 0; i < 4; i++) {
		v[i] = s.one_in(3) ? (float)s.draw(2) : s.real_in(0, 1);
	}
	return Color(v[0], v[1], v[2], v[3]);
}
// stores a color in the reference by asking the image what it made of it, within the step of the format
void stored(Ctx &c, const M &m, const uint8_t *got, const double *want, const char *what) {
	Col g = read(m.f, got);
	double w[4] = { want[0], want[1], want[2], want[3] };
	if (m.f == I::FORMAT_L8 || m.f == I::FORMAT_LA8) {
		w[0] = w[1] = w[2] = std::max(w[0], std::max(w[1], w[2]));
	}
	if (!has_alpha(m.f)) {
		w[3] = 1;
	}
	int color_chans = m.f == I::FORMAT_R8 || m.f == I::FORMAT_RF ? 1 : (m.f == I::FORMAT_RG8 || m.f == I::FORMAT_RGF ? 2 : 3);
	for (int i = 0; i < 4; i++) {
		double t = i < 3 && i >= color_chans ? 0 : w[i];
		double lim = is_float(m.f) ? 0 : 1;
		if (lim) {
			t = std::min(1.0, std::max(0.0, t));
		}
		c.near(g.v[i], t, step(m.f, i) * 1.001 + 1e-5, "%s: channel %d", what, i);
	}
}

struct R4 {
	int x, y, w, h;
};
R4 gen_rect(Src &s, int w, int h) {
	R4 r;
	r.x = (int)s.draw(w + 6) - 3;
	r.y = (int)s.draw(h + 6) - 3;
	r.w = (int)s.draw(w + 5);
	r.h = (int)s.draw(h + 5);
	return r;
}
} // namespace

VT_PROP(P16, edit_history, 5000) {
	M m = gen(s, 9);
	Ref<Image> img = make(m);
	bool fresh = true;
	c.note("%d x %d format %d;", m.w, m.h, m.f);
	verify(c, img, m, true, "create");
	int n = 1 + (int)s.draw(14), done = 0;
	std::vector<std::pair<Ref<Image>, M>> copies;
	auto regenerated = [&](M &x) { // mipmaps are made anew by operations that change the size
		fresh = true;
		return x.mip;
	};
	for (int op = 0; op < n; op++) {
		int k = (int)s.draw(17);
		switch (k) {
			case 0: {
				c.note("flip_x;");
				for (int y = 0; y < m.h; y++) {
					for (int x = 0; x < m.w / 2; x++) {
						std::swap_ranges(m.at(x, y), m.at(x, y) + ps(m.f), m.at(m.w - 1 - x, y));
					}
				}
				img->flip_x();
				regenerated(m);
				break;
			}
			case 1: {
				c.note("flip_y;");
				for (int y = 0; y < m.h / 2; y++) {
					std::swap_ranges(m.at(0, y), m.at(0, y) + m.w * ps(m.f), m.at(0, m.h - 1 - y));
				}
				img->flip_y();
				regenerated(m);
				break;
			}
			case 2:
			case 3: {
				int x = k == 2 ? 0 : (int)s.draw(m.w + 2), y = k == 2 ? 0 : (int)s.draw(m.h + 2);
				int w = 1 + (int)s.draw(m.w + 3), h = 1 + (int)s.draw(m.h + 3);
				if (w * h > 400) {
					break;
				}
				c.note("crop %d,%d %dx%d;", x, y, w, h);
				M o;
				o.f = m.f;
				o.w = w;
				o.h = h;
				o.mip = m.mip;
				o.px.resize((size_t)w * h * ps(m.f));
				for (int j = 0; j < h; j++) {
					for (int i = 0; i < w; i++) {
						if (x + i < m.w && y + j < m.h) {
							memcpy(o.at(i, j), m.at(x + i, y + j), ps(m.f));
						}
					}
				}
				bool whole = x == 0 && y == 0 && w == m.w && h == m.h;
				if (k == 2) {
					img->crop(w, h);
				} else {
					img->crop_from_point(x, y, w, h);
				}
				m = o;
				if (!whole) {
					regenerated(m);
				}
				break;
			}
			case 4:
			case 5: {
				R4 r = gen_rect(s, m.w, m.h);
				Color col = gen_color(s);
				c.note("fill %d,%d %dx%d;", r.x, r.y, r.w, r.h);
				if (k == 4) {
					r = { 0, 0, m.w, m.h };
					img->fill(col);
				} else {
					Rect2 a(r.x, r.y, r.w, r.h);
					if (s.one_in(4)) { // a rectangle given by its other corner
						a = Rect2(r.x + r.w, r.y + r.h, -r.w, -r.h);
					}
					img->fill_rect(a, col);
				}
				double v[4] = { col.r, col.g, col.b, col.a };
				bool first = true;
				Bytes p(ps(m.f));
				for (int y = std::max(0, r.y); y < std::min(m.h, r.y + r.h); y++) {
					for (int x = std::max(0, r.x); x < std::min(m.w, r.x + r.w); x++) {
						if (first) {
							memcpy(p.data(), img->datar() + (size_t)(y * m.w + x) * ps(m.f), ps(m.f));
							stored(c, m, p.data(), v, "fill");
							first = false;
						}
						memcpy(m.at(x, y), p.data(), ps(m.f));
					}
				}
				fresh = false;
				break;
			}
			case 6:
			case 7: {
				int x = (int)s.draw(m.w), y = (int)s.draw(m.h);
				Color col = gen_color(s);
				c.note("set %d,%d;", x, y);
				img->lock();
				if (s.flag()) {
					img->set_pixel(x, y, col);
				} else {
					img->set_pixelv(Vector2(x, y), col);
				}
				img->unlock();
				double v[4] = { col.r, col.g, col.b, col.a };
				memcpy(m.at(x, y), img->datar() + (size_t)(y * m.w + x) * ps(m.f), ps(m.f));
				stored(c, m, m.at(x, y), v, "set_pixel");
				fresh = false;
				break;
			}
			case 8:
			case 9:
			case 10: {
				M o = gen(s, 7, m.f);
				Ref<Image> src = make(o);
				R4 r = gen_rect(s, o.w, o.h);
				int dx = (int)s.draw(m.w + 6) - 4, dy = (int)s.draw(m.h + 6) - 4;
				bool masked = s.flag();
				M k4 = o;
				Ref<Image> mask;
				if (masked) {
					k4.f = s.flag() ? I::FORMAT_LA8 : I::FORMAT_RGBA8;
					gen_pixels(s, k4);
					mask = make(k4);
				}
				bool blend = k != 8;
				c.note("%s %d,%d %dx%d of %dx%d to %d,%d;", blend ? (masked ? "blend_rect_mask" : "blend_rect") : (masked ? "blit_rect_mask" : "blit_rect"), r.x, r.y, r.w, r.h, o.w, o.h, dx, dy);
				Rect2 a(r.x, r.y, r.w, r.h);
				Vector2 d(dx, dy);
				if (blend) {
					masked ? img->blend_rect_mask(src, mask, a, d) : img->blend_rect(src, a, d);
				} else {
					masked ? img->blit_rect_mask(src, mask, a, d) : img->blit_rect(src, a, d);
				}
				int hit = 0;
				for (int j = 0; j < r.h; j++) {
					for (int i = 0; i < r.w; i++) {
						int sx = r.x + i, sy = r.y + j, tx = dx + i, ty = dy + j;
						if (sx < 0 || sy < 0 || sx >= o.w || sy >= o.h || tx < 0 || ty < 0 || tx >= m.w || ty >= m.h) {
							continue;
						}
						if (masked && read(k4.f, k4.at(sx, sy)).v[3] == 0) {
							continue;
						}
						hit++;
						if (!blend) {
							memcpy(m.at(tx, ty), o.at(sx, sy), ps(m.f));
							continue;
						}
						Col over = read(m.f, o.at(sx, sy)), under = read(m.f, m.at(tx, ty));
						if (over.v[3] == 0) {
							continue;
						}
						double v[4], rest = under.v[3] * (1 - over.v[3]);
						v[3] = over.v[3] + rest;
						if (v[3] != 0 && std::fabs(v[3]) < 1e-3) {
							c.discard(); // a float alpha that all but cancels
						}
						for (int q = 0; q < 3; q++) {
							v[q] = v[3] == 0 ? 0 : (over.v[q] * over.v[3] + under.v[q] * rest) / v[3];
						}
						const uint8_t *now = img->datar() + (size_t)(ty * m.w + tx) * ps(m.f);
						if (is_float(m.f)) {
							Col g = read(m.f, now);
							for (int q = 0; q < chans(m.f); q++) {
								c.near(g.v[q], v[q], 2e-3 * (1 + std::fabs(v[q])), "blend at (%d, %d), channel %d", tx, ty, q);
							}
						} else if (!(m.f == I::FORMAT_RGBA5551 && v[3] < 1)) {
							stored(c, m, now, v, "blend");
						}
						memcpy(m.at(tx, ty), now, ps(m.f));
					}
				}
				if (hit) {
					fresh = false;
				}
				verify(c, src, o, true, "the source");
				if (masked) {
					verify(c, mask, k4, true, "the mask");
				}
				break;
			}
			case 11: {
				if (is_packed(m.f)) {
					break;
				}
				c.note("generate_mipmaps;");
				c.check(img->generate_mipmaps() == 0, "generate_mipmaps failed");
				m.mip = true;
				fresh = true;
				break;
			}
			case 12:
				c.note("clear_mipmaps;");
				img->clear_mipmaps();
				m.mip = false;
				break;
			case 13: {
				if (is_packed(m.f) || (m.mip ? m.w == 1 && m.h == 1 : m.w < 2 || m.h < 2) || (m.mip && !fresh)) {
					break;
				}
				c.note("shrink_x2;");
				m.px = shrink(m.px, m.f, m.w, m.h);
				m.w = std::max(m.w / 2, 1);
				m.h = std::max(m.h / 2, 1);
				img->shrink_x2();
				break;
			}
			case 14: {
				c.note("duplicate;");
				Ref<Image> d = s.flag() ? img->duplicate() : Ref<Image>();
				if (d.is_null()) {
					d.instance();
					d->copy_internals_from(img);
				}
				copies.push_back({ d, m });
				if (s.flag()) { // go on with the copy
					copies.back().first = img;
					img = d;
				}
				break;
			}
			case 15: {
				R4 r = gen_rect(s, m.w, m.h);
				r.w = std::max(r.w, 1);
				r.h = std::max(r.h, 1);
				c.note("get_rect %d,%d %dx%d;", r.x, r.y, r.w, r.h);
				Ref<Image> g = img->get_rect(Rect2(r.x, r.y, r.w, r.h));
				M o;
				o.f = m.f;
				o.w = r.w;
				o.h = r.h;
				o.mip = m.mip;
				o.px.resize((size_t)r.w * r.h * ps(m.f));
				int ux = std::max(0, -r.x), uy = std::max(0, -r.y);
				for (int j = uy; j < r.h; j++) {
					for (int i = ux; i < r.w; i++) {
						if (r.x + i < m.w && r.y + j < m.h) {
							memcpy(o.at(i, j), m.at(r.x + i, r.y + j), ps(m.f));
						}
					}
				}
				verify(c, g, o, false, "get_rect");
				break;
			}
			default: { // what cannot be done changes nothing
				c.no_errors("the operations so far");
				int w = s.draw(8);
				c.note("invalid %d;", w);
				switch (w) {
					case 0:
						img->resize(0, 3);
						break;
					case 1:
						img->crop(m.w, 0);
						break;
					case 2:
						img->crop_from_point(-1, 0, m.w, m.h);
						break;
					case 3:
						img->create(m.w, -1, false, (I::Format)m.f);
						break;
					case 4: {
						Vector<uint8_t> d;
						d.resize(m.w * m.h * ps(m.f) + 1);
						img->create(m.w, m.h, false, (I::Format)m.f, d);
						break;
					}
					case 5:
						img->set_pixel(m.w, 0, Color(1, 1, 1, 1));
						break;
					case 6:
						img->resize(I::MAX_WIDTH + 1, 1);
						break;
					default:
						img->blit_rect(Ref<Image>(), Rect2(0, 0, 1, 1), Vector2());
				}
				c.check(c.errors() > 0, "an invalid call went through without complaint");
			}
		}
		done++;
		verify(c, img, m, fresh && !is_packed(m.f), "after that");
		// what is there to see
		int x0 = m.w, y0 = m.h, x1 = -1, y1 = -1;
		for (int y = 0; y < m.h; y++) {
			for (int x = 0; x < m.w; x++) {
				if (!has_alpha(m.f) || read(m.f, m.at(x, y)).v[3] > 0) {
					x0 = std::min(x0, x);
					y0 = std::min(y0, y);
					x1 = std::max(x1, x);
					y1 = std::max(y1, y);
				}
			}
		}
		Rect2 want = x1 < 0 ? Rect2() : Rect2(x0, y0, x1 - x0 + 1, y1 - y0 + 1);
		Rect2 got = img->get_used_rect();
		c.check(got == want, "get_used_rect: (%g, %g) %g x %g", got.position.x, got.position.y, got.size.x, got.size.y);
		c.check(img->is_invisible() == (x1 < 0), "is_invisible is %d", img->is_invisible());
		if (m.f == I::FORMAT_LA8 || m.f == I::FORMAT_RGBA8) {
			bool some = false, zero = false;
			for (int i = ps(m.f) - 1; i < (int)m.px.size(); i += ps(m.f)) {
				zero = zero || m.px[i] < 2;
				some = some || (m.px[i] >= 2 && m.px[i] < 254);
			}
			c.check(img->detect_alpha() == (some ? I::ALPHA_BLEND : (zero ? I::ALPHA_BIT : I::ALPHA_NONE)), "detect_alpha is %d", (int)img->detect_alpha());
		} else if (!has_alpha(m.f)) {
			c.check(img->detect_alpha() == I::ALPHA_NONE, "detect_alpha of a format without alpha is %d", (int)img->detect_alpha());
		}
		int x = (int)s.draw(m.w), y = (int)s.draw(m.h);
		img->lock();
		Color g = s.flag() ? img->get_pixel(x, y) : img->get_pixelv(Vector2(x, y));
		img->unlock();
		Col t = read(m.f, m.at(x, y));
		for (int i = 0; i < 4; i++) {
			c.near(g[i], t.v[i], 1e-6 * (1 + std::fabs(t.v[i])), "get_pixel(%d, %d), channel %d", x, y, i);
		}
		img->lock();
		img->set_pixel(x, y, g); // writing back what was read
		img->unlock();
		if (!(is_byte(m.f) && fresh)) {
			verify(c, img, m, false, "a pixel written back");
		} else {
			verify(c, img, m, true, "a pixel written back");
		}
	}
	for (auto &d : copies) {
		verify(c, d.first, d.second, false, "a copy made earlier");
	}
	c.nt(done > 3 && m.w * m.h > 2);
	c.no_errors("editing an image");
}

VT_PROP(P16, conversions, 12000) {
	M m = gen(s, 5);
	int to = (int)s.draw(I::FORMAT_MAX);
	c.note("%d x %d format %d to %d", m.w, m.h, m.f, to);
	Ref<Image> img = make(m);
	bool mips = s.one_in(3) && !is_packed(m.f) && !is_packed(to);
	if (mips) {
		img->generate_mipmaps();
	}
	if (s.one_in(4)) { // the smallest format that has it all
		if (!is_byte(m.f)) {
			c.discard();
		}
		bool color = false, a = false, ch[3] = { false, false, false };
		for (int i = 0; i < m.w * m.h; i++) {
			Col p = read(m.f, &m.px[(size_t)i * ps(m.f)]);
			a = a || p.v[3] < 0.999;
			color = color || p.v[0] != p.v[1] || p.v[0] != p.v[2];
			for (int q = 0; q < 3; q++) {
				ch[q] = ch[q] || p.v[q] > 0;
			}
		}
		img->optimize_channels();
		c.check(img->get_width() == m.w && img->get_height() == m.h && img->has_mipmaps() == mips, "optimize_channels changed more than the format");
		int f = img->get_format();
		c.check(is_byte(f), "optimize_channels made format %d", f);
		for (int i = 0; i < m.w * m.h; i++) {
			Col p = read(m.f, &m.px[(size_t)i * ps(m.f)]), g = read(f, img->datar() + (size_t)i * ps(f));
			for (int q = 0; q < 4; q++) {
				c.near(g.v[q], p.v[q], 1e-6, "optimize_channels to format %d: pixel %d, channel %d", f, i, q);
			}
		}
		int best = !color ? (a ? I::FORMAT_LA8 : I::FORMAT_L8) : (a || !ch[0] ? I::FORMAT_RGBA8 : (ch[2] ? (ch[1] ? I::FORMAT_RGB8 : I::FORMAT_RGBA8) : (ch[1] ? I::FORMAT_RG8 : I::FORMAT_R8)));
		c.check(f == best, "optimize_channels made format %d, expected %d", f, best);
		c.no_errors("optimize_channels");
		c.nt(m.w * m.h > 2);
		return;
	}
	img->convert((I::Format)to);
	M o;
	o.f = to;
	o.w = m.w;
	o.h = m.h;
	o.mip = mips;
	o.px.assign(img->datar(), img->datar() + std::min(img->get_data_size(), m.w * m.h * ps(to)));
	verify(c, img, o, true, "convert");
	for (int i = 0; i < m.w * m.h; i++) {
		Col p = read(m.f, &m.px[(size_t)i * ps(m.f)]);
		const uint8_t *g = &o.px[(size_t)i * ps(to)];
		if (to == m.f) {
			c.check(!memcmp(g, &m.px[(size_t)i * ps(m.f)], ps(m.f)), "converting to the same format changed pixel %d", i);
		} else if (is_byte(m.f) && (to == I::FORMAT_L8 || to == I::FORMAT_LA8)) { // gray by the mean
			if (m.f != I::FORMAT_R8 && m.f != I::FORMAT_RG8) {
				Col q = read(to, g);
				c.near(q.v[0] * 255, (p.v[0] + p.v[1] + p.v[2]) * 85, 1.001, "gray of pixel %d", i);
			}
			if (to == I::FORMAT_LA8) {
				c.check(g[1] == (uint8_t)std::lround(p.v[3] * 255), "alpha of pixel %d", i);
			}
		} else {
			stored(c, o, g, p.v, "convert");
			Col q = read(to, g);
			if (is_byte(m.f) && is_byte(to)) {
				for (int k = 0; k < ps(to); k++) {
					c.near(q.v[k], k < 3 ? p.v[k] : p.v[3], 1e-6, "pixel %d, channel %d", i, k);
				}
			}
		}
	}
	// there and back: what the other format can hold comes back
	bool wider = chans(to) >= 4 && (is_float(to) || is_byte(to)) && to != I::FORMAT_RGBA4444;
	if (wider && !is_float(m.f)) {
		img->convert((I::Format)m.f);
		bool exact = m.f != I::FORMAT_L8 && m.f != I::FORMAT_LA8;
		if (exact || is_byte(to) || is_float(to)) {
			verify(c, img, [&]() { M x = m; x.mip = mips; return x; }(), false, "converted and back");
		}
	}
	c.nt(m.w * m.h > 2 && to != m.f);
	c.no_errors("conversion");
}

namespace {
typedef std::vector<double> D; // pixels of an image, channel by channel
D values(const Bytes &b, int f) {
	D o;
	if (is_float(f)) {
		for (size_t i = 0; i + 4 <= b.size(); i += 4) {
			float v;
			memcpy(&v, &b[i], 4);
			o.push_back(v);
		}
	} else {
		o.assign(b.begin(), b.end());
	}
	return o;
}
D bilinear(const D &src, int n, int w, int h, int W, int H) {
	D o((size_t)W * H * n);
	for (int y = 0; y < H; y++) {
		double sy = std::min(std::max((y + 0.5) * h / H - 0.5, 0.0), h - 1.0);
		int y0 = (int)sy, y1 = std::min(y0 + 1, h - 1);
		for (int x = 0; x < W; x++) {
			double sx = std::min(std::max((x + 0.5) * w / W - 0.5, 0.0), w - 1.0);
			int x0 = (int)sx, x1 = std::min(x0 + 1, w - 1);
			for (int k = 0; k < n; k++) {
				auto p = [&](int a, int b) { return src[((size_t)b * w + a) * n + k]; };
				double up = p(x0, y0) + (p(x1, y0) - p(x0, y0)) * (sx - x0), down = p(x0, y1) + (p(x1, y1) - p(x0, y1)) * (sx - x0);
				o[((size_t)y * W + x) * n + k] = up + (down - up) * (sy - y0);
			}
		}
	}
	return o;
}
// one direction at a time, with the weights of the samples around a place
template <class Fn>
D separable(const D &src, int n, int w, int h, int W, int H, Fn weights) {
	D t((size_t)W * h * n), o((size_t)W * H * n);
	for (int x = 0; x < W; x++) {
		auto ws = weights(x, w, W);
		for (int y = 0; y < h; y++) {
			for (int k = 0; k < n; k++) {
				double v = 0;
				for (auto &q : ws) {
					v += q.second * src[((size_t)y * w + q.first) * n + k];
				}
				t[((size_t)y * W + x) * n + k] = v;
			}
		}
	}
	for (int y = 0; y < H; y++) {
		auto ws = weights(y, h, H);
		for (int x = 0; x < W; x++) {
			for (int k = 0; k < n; k++) {
				double v = 0;
				for (auto &q : ws) {
					v += q.second * t[((size_t)q.first * W + x) * n + k];
				}
				o[((size_t)y * W + x) * n + k] = v;
			}
		}
	}
	return o;
}
typedef std::vector<std::pair<int, double>> Ws;
Ws cubic_weights(int i, int from, int to) {
	double at = (double)i * from / to - 0.5;
	int base = (int)std::floor(at);
	Ws o;
	for (int k = -1; k < 3; k++) {
		double d = std::fabs(at - (base + k));
		double v = d <= 1 ? (1.5 * d - 2.5) * d * d + 1 : (d < 2 ? ((-0.5 * d + 2.5) * d - 4) * d + 2 : 0);
		o.push_back({ std::min(std::max(base + k, 0), from - 1), v });
	}
	return o;
}
Ws lanczos_weights(int i, int from, int to) {
	double scale = (double)from / to, wide = std::max(scale, 1.0), at = (i + 0.5) * scale;
	int half = (int)(3 * wide + 1e-9), lo = std::max(0, (int)(at + 1e-9) - half + 1), hi = std::min(from - 1, (int)(at + 1e-9) + half);
	auto sinc = [](double x) { return std::fabs(x) < 1e-9 ? 1 : std::sin(M_PI * x) / (M_PI * x); };
	Ws o;
	double sum = 0;
	for (int k = lo; k <= hi; k++) {
		double d = (k + 0.5 - at) / wide, v = std::fabs(d) >= 3 ? 0 : sinc(d) * sinc(d / 3);
		o.push_back({ k, v });
		sum += v;
	}
	for (auto &q : o) {
		q.second /= sum;
	}
	return o;
}
} // namespace

VT_PROP(P16, resizing, 6000) {
	M m = gen(s, 12);
	if (s.one_in(5)) { // all of one color stays so
		for (int i = 1; i < m.w * m.h; i++) {
			memcpy(&m.px[(size_t)i * ps(m.f)], &m.px[0], ps(m.f));
		}
	}
	int W = 1 + (int)s.draw(20), H = 1 + (int)s.draw(20);
	if (s.one_in(6)) {
		W = m.w;
	} else if (s.one_in(6)) {
		W = 2 * m.w;
		H = 2 * m.h;
	}
	int how = (int)s.draw(5);
	bool mips = s.flag() && !is_packed(m.f);
	Ref<Image> img = make(m);
	if (mips) {
		img->generate_mipmaps();
	}
	bool po2 = s.one_in(6), square = s.flag();
	if (po2) {
		W = H = 1;
		while (W < m.w) {
			W *= 2;
		}
		while (H < m.h) {
			H *= 2;
		}
		c.check(img->is_size_po2() == (W == m.w && H == m.h), "is_size_po2 of %d x %d", m.w, m.h);
		if (square) {
			W = H = std::max(W, H);
		}
	}
	c.note("%d x %d format %d%s to %d x %d by %d", m.w, m.h, m.f, mips ? " with mipmaps" : "", W, H, how);
	M src = m;
	Bytes all(img->datar(), img->datar() + img->get_data_size());
	if (po2) {
		img->resize_to_po2(square, (I::Interpolation)how);
	} else {
		img->resize(W, H, (I::Interpolation)how);
	}
	M o;
	o.f = m.f;
	o.w = W;
	o.h = H;
	o.mip = mips;
	o.px.assign(img->datar(), img->datar() + std::min(img->get_data_size(), W * H * ps(m.f)));
	verify(c, img, o, true, "resize");
	int n = chans(m.f);
	if (W == m.w && H == m.h) {
		c.check(o.px == m.px, "resizing to the same size changed pixels");
	} else if (is_packed(m.f)) { // by way of 8 bits per channel
		Ref<Image> ref = make(m);
		ref->convert(I::FORMAT_RGBA8);
		ref->resize(W, H, (I::Interpolation)how);
		for (int i = 0; i < W * H; i++) {
			Col want = read(I::FORMAT_RGBA8, ref->datar() + 4 * i), got = read(m.f, &o.px[2 * (size_t)i]);
			for (int k = 0; k < 4; k++) {
				c.near(got.v[k], want.v[k], step(m.f, k) * 1.01, "pixel %d, channel %d", i, k);
			}
		}
	} else if (how == I::INTERPOLATE_NEAREST) {
		for (int y = 0; y < H; y++) {
			for (int x = 0; x < W; x++) {
				c.check(!memcmp(o.at(x, y), m.at(x * m.w / W, y * m.h / H), ps(m.f)), "pixel (%d, %d) is not that of the nearest place", x, y);
			}
		}
	} else {
		D v = values(m.px, m.f), want, other;
		double tol = is_float(m.f) ? 0 : 1.02, lo = *std::min_element(v.begin(), v.end()), hi = *std::max_element(v.begin(), v.end());
		double span = is_float(m.f) ? std::max(std::fabs(lo), std::fabs(hi)) * 2 + 1e-6 : hi - lo;
		if (how == I::INTERPOLATE_CUBIC) {
			want = separable(v, n, m.w, m.h, W, H, cubic_weights);
			tol += is_float(m.f) ? span * 1e-4 : 0;
		} else if (how == I::INTERPOLATE_LANCZOS) {
			want = separable(v, n, m.w, m.h, W, H, lanczos_weights);
			tol += is_float(m.f) ? span * 1e-3 : 0.1;
		} else {
			double weight = 1, scale = ((double)W / m.w + (double)H / m.h) / 2;
			int l1 = 0, l2 = 0;
			if (how == I::INTERPOLATE_TRILINEAR && scale < 1 && mips) {
				double level = std::log2(1 / scale);
				if (std::fabs(level - std::round(level)) < 1e-4 && std::fabs(level - std::round(level)) > 0) {
					c.discard();
				}
				int count = I::get_image_required_mipmaps(m.w, m.h, (I::Format)m.f);
				l1 = std::min((int)std::floor(level), count);
				l2 = std::min((int)std::ceil(level), count);
				weight = 1 - (level - l1);
			}
			auto scaled = [&](int level) {
				int w = m.w, h = m.h;
				size_t ofs = 0;
				for (int i = 0; i < level; i++) {
					ofs += (size_t)w * h * ps(m.f);
					w = std::max(w / 2, 1);
					h = std::max(h / 2, 1);
				}
				Bytes b(all.begin() + ofs, all.begin() + ofs + (size_t)w * h * ps(m.f));
				return bilinear(values(b, m.f), n, w, h, W, H);
			};
			want = scaled(l1);
			if (l1 != l2) {
				other = scaled(l2);
				for (size_t i = 0; i < want.size(); i++) {
					want[i] = other[i] + (want[i] - other[i]) * weight;
				}
				tol += is_float(m.f) ? 0 : 1 + (hi - lo) / 256;
			}
			tol += span * 2 / 256 + (is_float(m.f) ? 0 : 0.05);
		}
		D got = values(o.px, m.f);
		c.check(got.size() == want.size(), "sizes");
		for (size_t i = 0; i < got.size(); i++) {
			double t = is_float(m.f) ? want[i] : std::min(255.0, std::max(0.0, want[i]));
			c.near(got[i], t, tol + (is_float(m.f) ? 1e-6 : 0), "pixel (%d, %d), channel %d", (int)(i / n) % W, (int)(i / n) / W, (int)(i % n));
		}
	}
	c.nt(m.w * m.h > 3 && W * H > 3);
	c.no_errors("resizing");
}

VT_PROP(P16, files, 1500) {
	int kind = (int)s.draw(5);
	static const int byte_formats[] = { I::FORMAT_L8, I::FORMAT_LA8, I::FORMAT_R8, I::FORMAT_RG8, I::FORMAT_RGB8, I::FORMAT_RGBA8 };
	M m = gen(s, s.one_in(8) ? 40 : 8, kind == 4 ? (s.flag() ? I::FORMAT_RGBF : I::FORMAT_RGBAF) : byte_formats[s.draw(6)]);
	if (kind == 2) { // JPEG is for smooth pictures
		gen_pixel(s, m.f, m.at(0, 0));
		for (int i = 1; i < m.w * m.h; i++) {
			memcpy(&m.px[(size_t)i * ps(m.f)], m.at(0, 0), ps(m.f));
		}
	}
	if (kind == 4) {
		for (int i = 0; i < m.w * m.h * chans(m.f); i++) {
			float v = s.real_in(0, 1);
			memcpy(&m.px[4 * (size_t)i], &v, 4);
		}
	}
	Scratch dir(c);
	static const char *exts[] = { "png", "bmp", "jpg", "tga", "hdr" };
	String path = String(dir.dir.c_str()).plus_file(String("img.") + exts[kind]);
	c.note("%s: %d x %d format %d", exts[kind], m.w, m.h, m.f);
	Ref<Image> img = make(m);
	bool mips = s.one_in(3);
	if (mips) {
		img->generate_mipmaps();
	}
	int rounds = 1 + (int)s.draw(2);
	for (int r = 0; r < rounds; r++) { // a file written over is the new picture, all of it
		Error e = OK;
		switch (kind) {
			case 0:
				e = img->save_png(path);
				break;
			case 1:
				e = img->save_bmp(path);
				break;
			case 2:
				e = img->save_jpg(path, 100);
				break;
			case 3:
				e = img->save_tga(path);
				break;
			default:
				e = img->save_hdr(path);
		}
		c.check(e == OK, "saving failed with %d", (int)e);
	}
	M same = m;
	same.mip = mips;
	verify(c, img, same, false, "the image saved");
	int to = kind == 4 ? I::FORMAT_RGBA8 : (s.one_in(3) ? m.f : (int)I::FORMAT_RGBA8);
	Ref<Image> back = make(gen(s, 3));
	back->load_from_file(path, (I::Format)to);
	c.no_errors("saving and loading");
	c.check(back->get_width() == m.w && back->get_height() == m.h && back->get_format() == to && !back->has_mipmaps(), "loaded: %d x %d format %d", back->get_width(), back->get_height(), (int)back->get_format());
	c.check(back->get_data_size() == m.w * m.h * ps(to), "loaded: %d bytes", back->get_data_size());
	for (int i = 0; i < m.w * m.h; i++) {
		// a file knows gray, gray and alpha, RGB and RGBA
		Col p = read(m.f, &m.px[(size_t)i * ps(m.f)]), want = p;
		const uint8_t *raw = &m.px[(size_t)i * ps(m.f)];
		if (ps(m.f) <= 2) {
			want.v[0] = want.v[1] = want.v[2] = raw[0] / 255.0;
			want.v[3] = ps(m.f) == 2 ? raw[1] / 255.0 : 1;
		}
		double tol = 1e-6;
		if (kind == 1 && ps(m.f) == 2) {
			want.v[3] = 1; // there is no gray and alpha in BMP
		} else if (kind == 2) {
			want.v[3] = 1;
			tol = 3 / 255.0;
		} else if (kind == 4) {
			double top = std::max(p.v[0], std::max(p.v[1], p.v[2]));
			for (int k = 0; k < 3; k++) { // eight bits of the largest channel, shown with a gamma of 2.2
				double a = std::max(0.0, p.v[k] - top / 100 - 1e-6), b = p.v[k] + top / 100 + 1e-6;
				int g = back->datar()[4 * i + k];
				c.check(g >= 255 * std::pow(a, 1 / 2.2) - 1.01 && g <= 255 * std::pow(b, 1 / 2.2) + 1.01, "pixel %d, channel %d: %d from %g", i, k, g, p.v[k]);
			}
			c.check(back->datar()[4 * i + 3] == 255, "alpha of an HDR picture");
			continue;
		}
		Col g = read(to, back->datar() + (size_t)i * ps(to));
		if (to == I::FORMAT_L8 || to == I::FORMAT_LA8) {
			tol += 0.5 / 255;
		}
		for (int k = 0; k < 4; k++) {
			if (to != I::FORMAT_RGBA8 && k >= (to == I::FORMAT_R8 ? 1 : (to == I::FORMAT_RG8 ? 2 : 4))) {
				break;
			}
			if (k == 3 && !has_alpha(to)) {
				break;
			}
			c.near(g.v[k], want.v[k], tol, "pixel %d, channel %d", i, k);
		}
	}
	c.nt(m.w * m.h > 4);
}

VT_PROP(P16, effects, 8000) {
	int kind = (int)s.draw(8);
	switch (kind) {
		case 0: {
			M m = gen(s, 6, s.flag() ? I::FORMAT_RGB8 : I::FORMAT_RGBA8);
			Ref<Image> img = make(m);
			c.note("srgb_to_linear, format %d", m.f);
			img->srgb_to_linear();
			for (size_t i = 0; i < m.px.size(); i++) {
				double v = m.px[i] / 255.0, want = v <= 0.04045 ? v / 12.92 : std::pow((v + 0.055) / 1.055, 2.4);
				c.near(img->datar()[i], i % ps(m.f) == 3 ? m.px[i] : want * 255, i % ps(m.f) == 3 ? 0 : 1.01, "srgb_to_linear of %d", m.px[i]);
			}
			break;
		}
		case 1: {
			M m = gen(s, 6, s.one_in(4) ? -1 : I::FORMAT_RGBA8);
			Ref<Image> img = make(m);
			c.note("premultiply_alpha, format %d", m.f);
			img->premultiply_alpha();
			for (size_t i = 0; i < m.px.size(); i++) {
				if (m.f == I::FORMAT_RGBA8 && i % 4 != 3) {
					c.near(img->datar()[i], m.px[i] * m.px[i | 3] / 255.0, 2.01, "%d with alpha %d", m.px[i], m.px[i | 3]);
				} else {
					c.check(img->datar()[i] == m.px[i], "byte %d changed", (int)i);
				}
			}
			break;
		}
		case 2: { // clear pixels take the color of the closest visible one, at most four away
			M m = gen(s, 9, I::FORMAT_RGBA8);
			for (int i = 0; i < m.w * m.h; i++) {
				if (!s.one_in(4)) {
					m.px[4 * (size_t)i + 3] = (uint8_t)s.draw(20);
				}
			}
			Ref<Image> img = make(m);
			c.note("fix_alpha_edges %d x %d", m.w, m.h);
			img->fix_alpha_edges();
			for (int y = 0; y < m.h; y++) {
				for (int x = 0; x < m.w; x++) {
					const uint8_t *p = m.at(x, y), *g = img->datar() + 4 * (size_t)(y * m.w + x);
					c.check(p[3] == g[3], "alpha changed");
					int best = 1 << 20;
					bool ok = !memcmp(p, g, 3);
					if (p[3] < 20) {
						for (int pass = 0; pass < 2; pass++) {
							if (pass && best < 1 << 20) {
								ok = false;
							}
							for (int v = std::max(0, y - 4); v <= std::min(m.h - 1, y + 4); v++) {
								for (int u = std::max(0, x - 4); u <= std::min(m.w - 1, x + 4); u++) {
									int d = (u - x) * (u - x) + (v - y) * (v - y);
									if (m.at(u, v)[3] < 20) {
										continue;
									}
									if (!pass) {
										best = std::min(best, d);
									} else if (d == best && !memcmp(m.at(u, v), g, 3)) {
										ok = true;
									}
								}
							}
						}
					}
					c.check(ok, "pixel (%d, %d) has a color of none of its closest neighbors", x, y);
				}
			}
			break;
		}
		case 3: {
			M m = gen(s, 5, s.flag() ? I::FORMAT_RGB8 : (s.flag() ? I::FORMAT_RGBA8 : I::FORMAT_RGBF));
			Ref<Image> img = make(m);
			c.note("normalize, format %d", m.f);
			bool mips = s.one_in(3);
			if (mips) {
				img->generate_mipmaps();
			}
			img->normalize();
			c.check(img->has_mipmaps() == mips, "has_mipmaps");
			if (mips) { // those of the result
				int ofs = m.w * m.h * ps(m.f);
				if (m.f != I::FORMAT_RGBF && (m.w > 1 || m.h > 1)) {
					Bytes b = shrink(Bytes(img->datar(), img->datar() + ofs), m.f, m.w, m.h);
					int w = std::max(1, m.w / 2), h = std::max(1, m.h / 2);
					for (int i = 0; i < w * h; i++) {
						const uint8_t *p = &b[(size_t)i * ps(m.f)], *g = img->datar() + ofs + (size_t)i * ps(m.f);
						double v[3], l = 0;
						for (int k = 0; k < 3; k++) {
							v[k] = p[k] / 127.5 - 1;
							l += v[k] * v[k];
						}
						l = std::sqrt(l);
						for (int k = 0; k < 3; k++) {
							c.near(g[k], (v[k] / l + 1) * 127.5, 1.05, "pixel %d of the first mipmap, channel %d", i, k);
						}
					}
				}
			}
			for (int i = 0; i < m.w * m.h; i++) {
				Col p = read(m.f, &m.px[(size_t)i * ps(m.f)]), g = read(m.f, img->datar() + (size_t)i * ps(m.f));
				double v[3], l = 0;
				for (int k = 0; k < 3; k++) {
					v[k] = p.v[k] * 2 - 1;
					l += v[k] * v[k];
				}
				l = std::sqrt(l);
				if (l < 1e-3) {
					continue;
				}
				for (int k = 0; k < 3; k++) {
					c.near(g.v[k], (v[k] / l + 1) / 2, 1.01 * step(m.f, k) + 1e-4, "channel %d of pixel %d", k, i);
				}
				c.near(g.v[3], p.v[3], 0, "alpha of pixel %d", i);
			}
			break;
		}
		case 4: {
			M m = gen(s, 5, s.flag() ? I::FORMAT_RGB8 : I::FORMAT_RGBA8);
			Ref<Image> img = make(m);
			c.note("normalmap_to_xy");
			img->normalmap_to_xy();
			c.check(img->get_format() == I::FORMAT_LA8, "format %d", (int)img->get_format());
			for (int i = 0; i < m.w * m.h; i++) {
				const uint8_t *p = &m.px[(size_t)i * ps(m.f)], *g = img->datar() + 2 * (size_t)i;
				c.check(g[0] == p[1] && g[1] == p[0], "pixel %d is %d %d, expected %d %d", i, g[0], g[1], p[1], p[0]);
			}
			break;
		}
		case 5: {
			M m = gen(s, 5, s.flag() ? I::FORMAT_RF : (s.flag() ? I::FORMAT_R8 : I::FORMAT_RGBA8));
			Ref<Image> img = make(m);
			bool mips = s.flag();
			if (mips) {
				img->generate_mipmaps();
			}
			float scale = s.real(4);
			c.note("bumpmap_to_normalmap %g, format %d", scale, m.f);
			img->bumpmap_to_normalmap(scale);
			M o;
			o.f = I::FORMAT_RGBA8;
			o.w = m.w;
			o.h = m.h;
			o.mip = mips;
			o.px.assign(img->datar(), img->datar() + std::min(img->get_data_size(), 4 * m.w * m.h));
			verify(c, img, o, true, "bumpmap_to_normalmap");
			for (int y = 0; y < m.h; y++) {
				for (int x = 0; x < m.w; x++) {
					auto at = [&](int a, int b) { return read(m.f, m.at(a % m.w, b % m.h)).v[0]; };
					double up = (at(x, y) - at(x, y + 1)) * scale, across = (at(x + 1, y) - at(x, y)) * scale;
					double v[3] = { -across, -up, 1 }, l = std::sqrt(up * up + across * across + 1);
					for (int k = 0; k < 3; k++) {
						c.near(o.at(x, y)[k], 127.5 + 127.5 * v[k] / l, 1.02, "pixel (%d, %d), channel %d", x, y, k);
					}
					c.check(o.at(x, y)[3] == 255, "alpha");
				}
			}
			break;
		}
		case 6: { // XPM
			int w = 1 + (int)s.draw(6), h = 1 + (int)s.draw(6), colors = 1 + (int)s.draw(6), chars = 1 + (int)s.draw(2);
			std::vector<B> lines;
			std::vector<uint8_t> pal;
			std::vector<B> keys;
			bool mask = false;
			char t[80];
			snprintf(t, sizeof t, "%d %d %d %d", w, h, colors, chars);
			lines.push_back(t);
			for (int i = 0; i < colors; i++) {
				B key(1, "abcdef.#+"[i]);
				if (chars == 2) {
					key += "xyz"[s.draw(3)];
				}
				keys.push_back(key);
				uint8_t p[3] = { (uint8_t)s.draw(256), (uint8_t)s.draw(256), (uint8_t)s.draw(256) };
				if (s.one_in(5)) {
					p[0] = p[2] = 255;
					p[1] = 0;
					mask = true;
				}
				mask = mask || (p[0] == 255 && p[1] == 0 && p[2] == 255);
				pal.insert(pal.end(), p, p + 3);
				snprintf(t, sizeof t, s.flag() ? "%s c #%02X%02X%02X" : "%s\tc #%02x%02x%02x", key.c_str(), p[0], p[1], p[2]);
				lines.push_back(t);
			}
			std::vector<int> px;
			for (int y = 0; y < h; y++) {
				B l;
				for (int x = 0; x < w; x++) {
					px.push_back((int)s.draw(colors));
					l += keys[px.back()];
				}
				lines.push_back(l);
			}
			std::vector<const char *> xpm;
			for (auto &l : lines) {
				xpm.push_back(l.c_str());
			}
			c.note("XPM %s", lines[0].c_str());
			Ref<Image> img;
			if (s.flag()) {
				img = Ref<Image>(memnew(Image(xpm.data())));
			} else {
				img.instance();
				img->create(xpm.data());
			}
			c.check(img->get_width() == w && img->get_height() == h && img->get_format() == (mask ? I::FORMAT_RGBA8 : I::FORMAT_RGB8) && !img->has_mipmaps(), "%d x %d format %d", img->get_width(), img->get_height(), (int)img->get_format());
			int n = mask ? 4 : 3;
			for (int i = 0; i < w * h; i++) {
				const uint8_t *p = &pal[3 * (size_t)px[i]], *g = img->datar() + n * i;
				if (p[0] == 255 && p[1] == 0 && p[2] == 255) {
					c.check(g[3] == 0, "the mask color is not clear");
				} else {
					c.check(!memcmp(p, g, 3) && (n == 3 || g[3] == 255), "pixel %d is %d %d %d, expected %d %d %d", i, g[0], g[1], g[2], p[0], p[1], p[2]);
				}
			}
			break;
		}
		default: { // mipmaps of normal maps
			M m = gen(s, 8, s.flag() ? I::FORMAT_RGB8 : I::FORMAT_RGBA8);
			Ref<Image> img = make(m);
			c.note("generate_mipmaps(true) %d x %d", m.w, m.h);
			img->generate_mipmaps(true);
			Bytes b = m.px;
			int w = m.w, h = m.h, ofs = 0;
			while (w > 1 || h > 1) {
				ofs += w * h * ps(m.f);
				b = shrink(b, m.f, w, h);
				w = std::max(1, w / 2);
				h = std::max(1, h / 2);
				for (int i = 0; i < w * h; i++) {
					uint8_t *p = &b[(size_t)i * ps(m.f)];
					const uint8_t *g = img->datar() + ofs + (size_t)i * ps(m.f);
					double v[3], l = 0;
					for (int k = 0; k < 3; k++) {
						v[k] = p[k] / 127.5 - 1;
						l += v[k] * v[k];
					}
					l = std::sqrt(l);
					for (int k = 0; k < 3; k++) {
						c.near(g[k], (v[k] / l + 1) * 127.5, 1.05, "pixel %d of %d x %d, channel %d", i, w, h, k);
					}
					c.check(ps(m.f) == 3 || g[3] == p[3], "alpha of pixel %d of %d x %d", i, w, h);
					memcpy(p, g, ps(m.f));
				}
			}
			c.check(img->get_data_size() == ofs + ps(m.f) || (m.w == 1 && m.h == 1), "size");
		}
	}
	c.nt();
	c.no_errors("effects");
}
