// P19: real threads under ThreadSanitizer. What one thread does on its own things gives what it gives alone, reading shared
// things from several threads is no race, and what goes through the library's locks, flags and counts arrives whole.
#include "ml.h"

#include "core/activation.h"
#include "core/convolutions.h"
#include "core/cost.h"
#include "core/lin_alg.h"
#include "core/reg.h"
#include "core/stat.h"
#include "core/transforms.h"
#include "core/utilities.h"
#include "modules/kmeans/kmeans.h"
#include "modules/lin_reg/lin_reg.h"
#include "modules/log_reg/log_reg.h"
#include "modules/mlp/mlp.h"
#include "modules/multinomial_nb/multinomial_nb.h"
#include "modules/outlier_finder/outlier_finder.h"
#include "modules/pca/pca.h"
#include "modules/softmax_reg/softmax_reg.h"
#include "modules/svc/svc.h"
#include "platform/image.h"

#include <thread>
#include <unistd.h>

using namespace vt;

namespace {
struct Gen { // numbers of a task, the same whenever it runs
	uint64_t x;
	explicit Gen(uint64_t seed) :
			x(seed * 2654435761u + 88172645463325252ULL) {}
	uint64_t next() {
		x ^= x << 13;
		x ^= x >> 7;
		x ^= x << 17;
		return x;
	}
	int upto(int n) { return (int)(next() % (uint64_t)n); }
	float real() { return (float)upto(2001) / 250.0f - 4.0f; }
};
struct Sum {
	uint64_t h = 1469598103934665603ULL;
	void bytes(const void *p, size_t n) {
		for (size_t i = 0; i < n; i++) {
			h = (h ^ ((const uint8_t *)p)[i]) * 1099511628211ULL;
		}
	}
	void num(double v) { bytes(&v, sizeof v); }
	void text(const String &t) { bytes(t.get_data(), t.length() * sizeof(CharType)); }
	void vec(const Ref<MLPPVector> &v) {
		num(v.is_valid() ? v->size() : -1);
		for (int i = 0; v.is_valid() && i < v->size(); i++) {
			num(v->element_get(i));
		}
	}
	void mat(const Ref<MLPPMatrix> &m) {
		num(m.is_valid() ? m->size().x * 1000 + m->size().y : -1);
		for (int i = 0; m.is_valid() && i < m->data_size(); i++) {
			num(m->element_get_index(i));
		}
	}
};
Ref<MLPPVector> gvec(Gen &g, int n) {
	std::vector<float> v;
	for (int i = 0; i < n; i++) {
		v.push_back(g.real());
	}
	return mkv(v);
}
Ref<MLPPMatrix> gmat(Gen &g, int r, int k) {
	Ref<MLPPMatrix> m;
	m.instance();
	m->resize(Size2i(k, r));
	for (int i = 0; i < r * k; i++) {
		m->element_set_index(i, g.real());
	}
	return m;
}
Ref<MLPPVector> glabels(Gen &g, int n, int k) {
	std::vector<float> v;
	for (int i = 0; i < n; i++) {
		v.push_back((float)g.upto(k));
	}
	return mkv(v);
}
String gtext(Gen &g) {
	String t;
	int n = 3 + g.upto(12);
	for (int i = 0; i < n; i++) {
		static const CharType some[] = { 'a', 'b', 'Z', ' ', ',', '1', '.', 0xe9, 0x4e2d, '_', '-', '/' };
		t += some[g.upto(12)];
	}
	return t;
}
Variant gvar(Gen &g) {
	switch (g.upto(8)) {
		case 0: return Variant(g.upto(100));
		case 1: return Variant(g.real());
		case 2: return Variant(gtext(g));
		case 3: return Variant(Vector2(g.real(), g.real()));
		case 4: return Variant(Vector3(g.real(), g.real(), g.real()));
		case 5: return Variant(Color(g.real(), g.real(), g.real()));
		case 6: return Variant(g.upto(2) != 0);
		default: {
			Array a;
			a.push_back(g.upto(9));
			a.push_back(gtext(g));
			return a;
		}
	}
}

const int NTASKS = 30;
// does one piece of work with things of its own and gives a sum of the results
uint64_t work(int kind, uint64_t seed, int who) {
	Gen g(seed * 64 + kind);
	Sum r;
	switch (kind) {
		case 0: {
			String t = gtext(g), u = gtext(g);
			r.text(t + u);
			r.text((t + "," + u).replace("a", "xyz").to_upper());
			Vector<String> p = (t + "," + u).split(",");
			for (int i = 0; i < p.size(); i++) {
				r.text(p[i].capitalize());
				r.text(p[i].camelcase_to_underscore());
			}
			r.num(t.find("Z") + u.rfind("1") + t.similarity(u));
			break;
		}
		case 1: {
			double v = g.real() * 1000 / (1 + g.upto(7));
			r.text(String::num(v));
			r.text(String::num(v, 3));
			r.text(String::num_scientific(v));
			r.text(rtos(v));
			r.text(itos(g.next()));
			r.text(String::num_int64(g.upto(10000), 16));
			r.num(String::num(v).to_double());
			r.num(String("0x1f").hex_to_int64());
			break;
		}
		case 2: {
			String t = gtext(g);
			CharString u = t.utf8();
			String back;
			back.parse_utf8(u.get_data());
			r.text(back);
			r.text(t.http_escape());
			r.text(t.c_escape().c_unescape());
			r.text(t.json_escape());
			r.text(t.xml_escape(true));
			r.text(t.percent_encode());
			r.num(t.hash());
			break;
		}
		case 3: {
			Variant a = gvar(g), b = gvar(g);
			for (int op = 0; op < Variant::OP_MAX; op++) {
				if (op == Variant::OP_DIVIDE || op == Variant::OP_MODULE || op == Variant::OP_SHIFT_LEFT || op == Variant::OP_SHIFT_RIGHT || op == Variant::OP_IN) {
					continue;
				}
				Variant res;
				bool ok = false;
				Variant::evaluate((Variant::Operator)op, a, b, res, ok);
				r.num(ok);
				if (ok && res.get_type() != Variant::ARRAY) {
					r.text(String(res));
				}
			}
			break;
		}
		case 4: {
			Array a;
			for (int i = 0; i < 12; i++) {
				a.push_back(g.upto(50));
			}
			a.sort();
			a.insert(3, 7);
			a.invert();
			Array b = a.duplicate(true);
			b.erase(7);
			r.text(String(Variant(a)));
			r.text(String(Variant(b)));
			r.num(a.find(7) + a.hash());
			break;
		}
		case 5: {
			Dictionary d;
			for (int i = 0; i < 10; i++) {
				d[gvar(g)] = g.upto(100);
			}
			d.erase(1);
			Dictionary e = d.duplicate(true);
			e["x"] = 1;
			r.num(d.size() + 100 * e.size());
			for (const Variant *k = d.next(nullptr); k; k = d.next(k)) {
				r.text(String(*k));
				r.text(String(d[*k]));
			}
			break;
		}
		case 6: {
			Basis b(Vector3(g.real(), g.real(), g.real() + 9).normalized(), g.real());
			Transform t(b, Vector3(g.real(), g.real(), g.real()));
			Vector3 e = b.get_euler(), x = t.affine_inverse().xform(e);
			Quaternion q(b);
			r.num(x.x + x.y * 3 + x.z * 7);
			r.num(q.slerp(Quaternion(), 0.3).w);
			r.text(String(t));
			break;
		}
		case 7: {
			RandomPCG p(g.next());
			for (int i = 0; i < 20; i++) {
				r.num(p.rand());
				r.num(p.randf());
				r.num(p.random(-3.0, 9.0));
			}
			break;
		}
		case 8: {
			Ref<Image> im;
			im.instance();
			im->create(8, 8, false, Image::FORMAT_RGBA8);
			im->lock();
			for (int i = 0; i < 20; i++) {
				im->set_pixel(g.upto(8), g.upto(8), Color(g.upto(255) / 255.0, g.upto(255) / 255.0, g.upto(255) / 255.0, 1));
			}
			im->unlock();
			im->resize(5 + g.upto(6), 7, (Image::Interpolation)g.upto(3));
			im->convert(Image::FORMAT_RGB8);
			im->flip_x();
			im->generate_mipmaps();
			Vector<uint8_t> d = im->get_data();
			r.bytes(d.ptr(), d.size());
			break;
		}
		case 9: {
			HashMap<String, int> m;
			RBMap<int, String> t;
			RBSet<int> s;
			List<int> l;
			for (int i = 0; i < 20; i++) {
				String k = itos(g.upto(15));
				m[k] = i;
				t[g.upto(15)] = k;
				s.insert(g.upto(15));
				l.push_front(g.upto(15));
			}
			l.sort();
			for (RBMap<int, String>::Element *e = t.front(); e; e = e->next()) {
				r.num(e->key());
				r.text(e->value());
			}
			for (List<int>::Element *e = l.front(); e; e = e->next()) {
				r.num(e->get());
			}
			r.num(m.size() + s.size() * 100);
			break;
		}
		case 10: {
			Vector<int> v;
			LocalVector<int> w;
			PoolVector<int> p;
			for (int i = 0; i < 15; i++) {
				int x = g.upto(99);
				v.push_back(x);
				w.push_back(x);
				p.push_back(x);
			}
			v.sort();
			Vector<int> u = v;
			u.invert();
			p.remove(3);
			PoolVector<int> q = p;
			q.set(0, 5);
			for (int i = 0; i < v.size(); i++) {
				r.num(v[i] + 100 * u[i] + 10000 * (int)w[i]);
			}
			for (int i = 0; i < p.size(); i++) {
				r.num(p[i] + 100 * q[i]);
			}
			break;
		}
		case 11: {
			StringName a(String("task_") + itos(g.upto(6))), b("task_3"), n;
			n = a;
			r.text(String(n));
			r.num(a == b);
			r.num(StringName(String(a)) == n);
			break;
		}
		case 12: {
			Ref<MLPPVector> o = gvec(g, 3);
			Variant v = o;
			Array arr;
			arr.push_back(v);
			arr.push_back(o);
			Ref<MLPPVector> back = arr[1];
			r.num(back == o);
			r.num(o->reference_get_count());
			Object *plain = memnew(Object);
			Variant pv(plain);
			plain->set_meta("m", g.upto(10));
			r.text(String(plain->get_meta("m")));
			r.num(ObjectDB::get_instance(plain->get_instance_id()) == plain);
			memdelete(plain);
			r.num((Object *)pv == nullptr);
			break;
		}
		case 13: {
			char name[64];
			snprintf(name, sizeof name, "race_%d_%d", (int)getpid(), who);
			static const std::string dir = [] {
				char b[4096];
				const char *d = getenv("VT_SCRATCH");
				return std::string(d ? d : getcwd(b, sizeof b));
			}();
			String path = String::utf8((dir + "/" + name).c_str());
			Error err;
			FileAccess *f = FileAccess::create_and_open(path, FileAccess::WRITE, &err);
			if (f) {
				f->store_line(gtext(g).replace("\n", ""));
				f->store_32(g.upto(1000000));
				f->store_double(g.real());
				f->close();
				memdelete(f);
			}
			f = FileAccess::create_and_open(path, FileAccess::READ, &err);
			if (f) {
				r.text(f->get_line());
				r.num(f->get_32());
				r.num(f->get_double());
				r.num(f->get_len());
				f->close();
				memdelete(f);
			}
			unlink((dir + "/" + name).c_str());
			break;
		}
		case 14: {
			StringBuilder sb;
			StringBuffer<> bf;
			for (int i = 0; i < 6; i++) {
				String t = gtext(g);
				sb += t;
				bf += t;
			}
			r.text(sb.as_string());
			r.text(bf.as_string());
			break;
		}
		case 15: {
			Ref<MLPPVector> a = gvec(g, 9), b = gvec(g, 9);
			r.vec(a->addn(b));
			r.vec(a->hadamard_productn(b));
			r.num(a->dot(b));
			r.vec(a->absn());
			r.num(a->norm_2() + a->sum_elements());
			r.mat(a->outer_product(b));
			r.text(a->to_string());
			break;
		}
		case 16: {
			Ref<MLPPMatrix> a = gmat(g, 4, 4), b = gmat(g, 4, 4);
			r.mat(a->multn(b));
			r.mat(a->transposen());
			r.mat(a->kronecker_productn(b));
			r.num(a->det());
			r.mat(a->addn(b)->scalar_multiplyn(3));
			r.text(a->to_string());
			break;
		}
		case 17: {
			MLPPLinAlg alg;
			Ref<MLPPMatrix> a = gmat(g, 3, 3), s = alg.matmultnm(a, alg.transposenm(a));
			MLPPLinAlg::QRDResult q = alg.qrd(s);
			r.mat(q.Q);
			r.mat(q.R);
			r.mat(alg.covnm(a));
			break;
		}
		case 18: {
			MLPPActivation act;
			Ref<MLPPVector> a = gvec(g, 6);
			Ref<MLPPMatrix> m = gmat(g, 3, 4);
			r.vec(act.sigmoid_normv(a));
			r.vec(act.softmax_normv(a));
			r.vec(act.tanh_derivv(a));
			r.mat(act.softplus_normm(m));
			r.mat(act.run_activation_norm_matrix(MLPPActivation::ACTIVATION_FUNCTION_SWISH, m));
			break;
		}
		case 19: {
			MLPPCost cost;
			Ref<MLPPVector> a = gvec(g, 6), b = gvec(g, 6);
			r.num(cost.msev(a, b) + cost.maev(a, b) * 3 + cost.hinge_lossv(a, b) * 7);
			r.vec(cost.mse_derivv(a, b));
			MLPPReg reg;
			r.num(reg.reg_termv(a, 0.5, 0.3, MLPPReg::REGULARIZATION_TYPE_ELASTIC_NET));
			break;
		}
		case 20: {
			MLPPStat stat;
			Ref<MLPPVector> a = gvec(g, 7), b = gvec(g, 7);
			r.num(stat.meanv(a) + stat.median(a) * 3 + stat.variancev(a) * 5 + stat.covariancev(a, b) * 7);
			r.vec(stat.mode(a));
			break;
		}
		case 21: {
			MLPPTransforms tr;
			r.mat(tr.discrete_cosine_transform(gmat(g, 4, 4)));
			MLPPConvolutions cv;
			r.mat(cv.convolve_2d(gmat(g, 5, 5), gmat(g, 2, 2), 1, 0));
			break;
		}
		case 22: {
			MLPPLinReg m(gmat(g, 8, 2), gvec(g, 8), MLPPReg::REGULARIZATION_TYPE_RIDGE, 0.1, 0);
			m.gradient_descent(0.001, 5, false);
			r.vec(m.model_set_test(gmat(g, 4, 2)));
			r.num(m.score());
			break;
		}
		case 23: {
			MLPPLogReg m(gmat(g, 8, 2), glabels(g, 8, 2), MLPPReg::REGULARIZATION_TYPE_NONE, 0, 0);
			m.gradient_descent(0.01, 5, false);
			r.vec(m.model_set_test(gmat(g, 4, 2)));
			break;
		}
		case 24: {
			Ref<MLPPVector> y = glabels(g, 6, 2);
			MLPPMLP m(gmat(g, 6, 2), y, 3, MLPPReg::REGULARIZATION_TYPE_NONE, 0, 0);
			m.initialize();
			m.gradient_descent(0.01, 3, false);
			r.vec(m.model_set_test(gmat(g, 4, 2)));
			break;
		}
		case 25: {
			MLPPOutlierFinder f(1.5);
			PoolRealArray o = f.model_test(gvec(g, 12));
			for (int i = 0; i < o.size(); i++) {
				r.num(o[i]);
			}
			break;
		}
		case 26: {
			MLPPSVC m(gmat(g, 6, 2), glabels(g, 6, 2)->scalar_multiplyn(2)->scalar_addn(-1), 0.5);
			m.train_gradient_descent(0.01, 4, false);
			r.vec(m.model_set_test(gmat(g, 4, 2)));
			break;
		}
		case 27: {
			Ref<MLPPMatrix> one = gmat(g, 6, 2);
			Ref<MLPPMatrix> hot;
			hot.instance();
			hot->resize(Size2i(3, 6));
			hot->fill(0);
			for (int i = 0; i < 6; i++) {
				hot->element_set(i, g.upto(3), 1);
			}
			MLPPSoftmaxReg m(one, hot, MLPPReg::REGULARIZATION_TYPE_NONE, 0, 0);
			m.train_gradient_descent(0.01, 4, false);
			r.mat(m.model_set_test(one));
			break;
		}
		case 28: {
			AABB bx(Vector3(g.real(), g.real(), g.real()), Vector3(1, 2, 3));
			r.num(bx.intersects(AABB(Vector3(), Vector3(2, 2, 2))));
			Color k(g.upto(100) / 100.0, 0.3, 0.4);
			r.text(k.to_html());
			r.num(k.get_h() + k.to_rgba32());
			Projection pr;
			pr.set_perspective(60, 1, 0.1, 100, false);
			r.num(pr.xform(Vector3(1, 2, -g.upto(30) - 1.0)).x);
			break;
		}
		default: {
			// errors are printed from everywhere
			Vector<int> v;
			r.num(v.insert(5, 1));
			r.num(String("99999999999").to_int());
			r.num(String("x").hex_to_int());
		}
	}
	return r.h;
}

// the functions run at once in threads of their own
void together(std::vector<std::function<void()>> fs) {
	std::atomic<int> at{ 0 };
	int n = (int)fs.size();
	std::vector<std::thread> ts;
	for (auto &f : fs) {
		ts.emplace_back([&] {
			at.fetch_add(1, std::memory_order_relaxed); // the start tells the race detector nothing
			while (at.load(std::memory_order_relaxed) < n) {
			}
			f();
		});
	}
	for (auto &t : ts) {
		t.join();
	}
}
} // namespace

VT_PROP(P19, independent_work, 700) {
	int n = 2 + (int)s.draw(2);
	struct One {
		int kind;
		int seed;
		uint64_t got;
	};
	std::vector<std::vector<One>> todo(n);
	int common = (int)s.draw(NTASKS);
	for (auto &t : todo) {
		int k = 1 + (int)s.draw(3);
		for (int i = 0; i < k; i++) {
			t.push_back({ s.flag() ? common : (int)s.draw(NTASKS), (int)s.draw(1000), 0 });
		}
	}
	for (auto &t : todo) {
		for (auto &o : t) {
			c.note("%d(%d)", o.kind, o.seed);
		}
		c.note("|");
	}
	freeze_entropy(true);
	stop_clock(true);
	std::vector<std::function<void()>> fs;
	for (int t = 0; t < n; t++) {
		fs.push_back([&, t] {
			for (auto &o : todo[t]) {
				o.got = work(o.kind, o.seed, t);
			}
		});
	}
	together(fs);
	for (auto &t : todo) {
		for (auto &o : t) {
			uint64_t alone = work(o.kind, o.seed, 99);
			c.check(alone == o.got, "work %d(%d) gives something else in a thread beside others than alone", o.kind, o.seed);
		}
	}
	freeze_entropy(false);
	stop_clock(false);
	c.errors();
	c.nt();
}

VT_PROP(P19, shared_reading, 700) {
	// things that nobody changes are read by all
	Gen g(s.draw(100000));
	const String text = gtext(g) + ",12.5";
	const StringName name(text);
	Array arr_w;
	Dictionary dict_w;
	Vector<int> vec_w;
	PoolVector<int> pool_w;
	HashMap<String, int> map_w;
	RBMap<int, int> tree_w;
	List<int> list_w;
	for (int i = 0; i < 8; i++) {
		arr_w.push_back(gvar(g));
		dict_w[i] = gvar(g);
		vec_w.push_back(g.upto(50));
		pool_w.push_back(g.upto(50));
		map_w[itos(i)] = g.upto(50);
		tree_w[g.upto(50)] = i;
		list_w.push_back(i);
	}
	const Array arr = arr_w;
	const Dictionary dict = dict_w;
	const Vector<int> vec = vec_w;
	const PoolVector<int> pool = pool_w;
	const HashMap<String, int> &map = map_w;
	const RBMap<int, int> &tree = tree_w;
	const List<int> &list = list_w;
	const Variant var = gvar(g);
	const Ref<MLPPVector> v = gvec(g, 6);
	const Ref<MLPPMatrix> m = gmat(g, 3, 3);
	Ref<Image> im_w;
	im_w.instance();
	im_w->create(4, 4, false, Image::FORMAT_RGBA8);
	im_w->fill(Color(0.3, 0.4, 0.5));
	const Ref<Image> im = im_w;
	Object *obj = memnew(Object);
	obj->set_meta("k", 3);
	const Variant objv(obj);
	const ObjectID id = obj->get_instance_id();
	auto read = [&](int kind) {
		Sum r;
		switch (kind) {
			case 0: {
				String t = text;
				r.text(t.to_upper());
				r.num(text.find(",") + text.hash() + text.length());
				r.bytes(text.utf8().get_data(), text.utf8().length());
				t += "x";
				r.text(t);
				break;
			}
			case 1: {
				StringName n2 = name, n3(text);
				r.num(n2 == name && n3 == name);
				r.text(String(n2));
				r.num(name.hash());
				break;
			}
			case 2: {
				Array a = arr;
				for (int i = 0; i < a.size(); i++) {
					r.text(String(arr.get(i)));
				}
				Array b = arr.duplicate();
				b.push_back(1);
				r.num(b.size() + arr.find(3) + arr.hash());
				break;
			}
			case 3: {
				Dictionary d = dict;
				r.num(d.size());
				for (int i = 0; i < 8; i++) {
					r.text(String(d.get_valid(i)));
					r.num(dict.has(i));
				}
				r.num(dict.keys().size() + dict.values().size());
				Dictionary e = dict.duplicate();
				e["new"] = 1;
				r.num(e.size());
				break;
			}
			case 4: {
				Vector<int> w = vec;
				w.write[2] = 5;
				w.push_back(9);
				for (int i = 0; i < vec.size(); i++) {
					r.num(vec[i] + 100 * w[i]);
				}
				break;
			}
			case 5: {
				PoolVector<int> w = pool;
				{
					PoolVector<int>::Read rd = pool.read();
					for (int i = 0; i < pool.size(); i++) {
						r.num(rd[i]);
					}
				}
				w.set(1, 77);
				w.push_back(3);
				r.num(w.size() + w[1] + pool[1]);
				break;
			}
			case 6: {
				for (int i = 0; i < 8; i++) {
					const int *x = map.getptr(itos(i));
					r.num(x ? *x : -1);
				}
				HashMap<String, int> cp(map);
				cp["z"] = 1;
				r.num(cp.size());
				break;
			}
			case 7: {
				for (const RBMap<int, int>::Element *e = tree.front(); e; e = e->next()) {
					r.num(e->key() * 100 + e->value());
				}
				RBMap<int, int> cp(tree);
				cp[1000] = 1;
				r.num(cp.size());
				for (const List<int>::Element *e = list.front(); e; e = e->next()) {
					r.num(e->get());
				}
				List<int> lc(list);
				lc.push_back(4);
				r.num(lc.size());
				break;
			}
			case 8: {
				Variant x = var, y = objv;
				r.text(String(x));
				r.num(x == var);
				r.num(x.hash());
				r.num((Object *)y == obj);
				y = Variant();
				r.num((Object *)objv == obj);
				break;
			}
			case 9: {
				Ref<MLPPVector> w = v;
				r.num(v->dot(w) + w->sum_elements());
				r.vec(v->addn(v));
				r.mat(m->multn(m));
				r.mat(m->transposen());
				Gen own(3);
				r.vec(m->mult_vec(gvec(own, 3)));
				break;
			}
			case 10: {
				Ref<Image> cp = im->duplicate();
				cp->flip_y();
				r.num(im->get_width() + cp->get_height() + im->get_data().size());
				r.num(im->empty());
				break;
			}
			default: {
				Object *o = ObjectDB::get_instance(id);
				r.num(o == obj);
				r.num((int)obj->get_meta("k"));
				r.num(obj->has_meta("q"));
				r.text(String(obj->get_class_name()));
				r.text(String(v->get_class_name()));
				r.text(m->get_class());
				r.num(m->is_class("Reference"));
				r.num(Object::cast_to<MLPPMatrix>((Object *)m.ptr()) == m.ptr());
				r.text(String(StringName("some name")));
			}
		}
		return r.h;
	};
	int n = 2 + (int)s.draw(2);
	std::vector<std::vector<std::pair<int, uint64_t>>> todo(n);
	int common = (int)s.draw(12);
	for (auto &t : todo) {
		int k = 1 + (int)s.draw(4);
		for (int i = 0; i < k; i++) {
			t.push_back({ s.flag() ? common : (int)s.draw(12), 0 });
		}
	}
	for (auto &t : todo) {
		for (auto &o : t) {
			c.note("%d", o.first);
		}
		c.note("|");
	}
	std::vector<std::function<void()>> fs;
	for (int t = 0; t < n; t++) {
		fs.push_back([&, t] {
			for (auto &o : todo[t]) {
				o.second = read(o.first);
			}
		});
	}
	together(fs);
	for (auto &t : todo) {
		for (auto &o : t) {
			c.check(read(o.first) == o.second, "reading %d gives something else beside others than alone", o.first);
		}
	}
	memdelete(obj);
	c.no_errors("reading shared things");
	c.nt();
}

VT_PROP(P19, handed_over, 1200) {
	// what is written before a lock, flag, count or thread passes on is seen whole by who comes after
	int how = (int)s.draw(8), rounds = 1 + (int)s.draw(20), n = 2 + (int)s.draw(2);
	c.note("how=%d rounds=%d threads=%d", how, rounds, n);
	Mutex m;
	BinaryMutex bm;
	SpinLock sl;
	RWLock rw;
	struct Box {
		int a = 0, b = 0;
		std::string t;
	} box;
	auto change = [&] {
		box.a++;
		box.t += "x";
		box.b++;
	};
	if (how < 5) {
		std::atomic<int> wrong{ 0 };
		std::vector<std::function<void()>> fs;
		for (int t = 0; t < n; t++) {
			fs.push_back([&, t] {
				for (int i = 0; i < rounds; i++) {
					switch (how) {
						case 0:
							if (i % 3 == 2) {
								while (m.try_lock() != OK) {
								}
							} else {
								m.lock();
							}
							change();
							m.unlock();
							break;
						case 1: {
							MutexLock l(bm);
							change();
							break;
						}
						case 2:
							sl.lock();
							change();
							sl.unlock();
							break;
						case 3: {
							{
								RWLockWrite l(rw);
								change();
							}
							RWLockRead l(rw);
							if (box.a != box.b || (int)box.t.size() != box.a) {
								wrong.fetch_add(1, std::memory_order_relaxed);
							}
							break;
						}
						default: {
							MutexLock l(m);
							MutexLock again(m);
							change();
						}
					}
				}
			});
		}
		together(fs);
		c.check(wrong.load() == 0 && box.a == n * rounds && box.b == box.a && (int)box.t.size() == box.a, "%d and %d of %d changes are left", box.a, box.b, n * rounds);
	} else if (how == 5) {
		SafeFlag ready, back;
		int seen = 0;
		together({ [&] {
					  for (int i = 0; i < rounds; i++) {
						  change();
						  ready.set();
						  while (!back.is_set()) {
						  }
						  back.clear();
					  }
				  },
				[&] {
					for (int i = 0; i < rounds; i++) {
						while (!ready.is_set()) {
						}
						seen += box.a == i + 1 && box.b == i + 1;
						ready.set_to(false);
						back.set_to(true);
					}
				} });
		c.check(seen == rounds, "%d of %d changes were seen", seen, rounds);
	} else if (how == 6) {
		SafeNumeric<uint32_t> turn(0);
		int kind = (int)s.draw(5);
		std::vector<std::function<void()>> fs;
		for (int t = 0; t < n; t++) {
			fs.push_back([&, t] {
				for (int i = 0; i < rounds; i++) {
					while ((int)turn.get() != i * n + t) {
					}
					change();
					uint32_t next = i * n + t + 1;
					switch (kind) {
						case 0: turn.set(next); break;
						case 1: turn.increment(); break;
						case 2: turn.add(1); break;
						case 3: turn.exchange_if_greater(next); break;
						default: next == 1 ? turn.set(1) : (void)turn.conditional_increment();
					}
				}
			});
		}
		together(fs);
		c.check(box.a == n * rounds && (int)turn.get() == n * rounds, "%d of %d changes are left", box.a, n * rounds);
	} else {
		struct Arg {
			Box *b;
			Thread::ID id;
		} arg{ &box, 0 };
		std::unique_ptr<Thread> th(new Thread);
		for (int i = 0; i < rounds; i++) {
			change();
			th->start([](void *p) {
				Arg *a = (Arg *)p;
				a->b->a++;
				a->b->b++;
				a->b->t += "y";
				a->id = Thread::get_caller_id();
			},
					&arg);
			Thread::ID id = th->get_id();
			th->wait_to_finish();
			c.check(box.a == 2 * i + 2 && box.b == box.a && (int)box.t.size() == box.a, "%d of %d changes are left", box.a, 2 * i + 2);
			c.check(arg.id == id, "the thread's own id differs from what its starter sees");
		}
	}
	c.no_errors("handing over");
	c.nt();
}

VT_PROP(P19, last_uses, 1200) {
	// things shared by several threads, each of which reads and then lets go; the last one takes them apart
	int n = 2 + (int)s.draw(2), kind = (int)s.draw(9), size = 1 + (int)s.draw(20);
	std::vector<int> spin(n);
	for (int &x : spin) {
		x = (int)s.draw(60);
	}
	bool copy = s.flag();
	c.note("kind=%d threads=%d copy=%d", kind, n, copy);
	struct Held {
		Ref<MLPPVector> ref;
		Variant var;
		Vector<int> vec;
		String text;
		PoolVector<int> pool;
		Array arr;
		Dictionary dict;
		StringName name;
		Vector<Variant> vars;
	};
	std::vector<std::unique_ptr<Held>> held;
	Object *plain = nullptr;
	{
		Held h;
		Gen g(size);
		switch (kind) {
			case 0: h.ref = gvec(g, size); break;
			case 1: h.var = gvec(g, size); break;
			case 2:
				for (int i = 0; i < size; i++) {
					h.vec.push_back(i);
				}
				break;
			case 3:
				for (int i = 0; i < size; i++) {
					h.text += "t";
				}
				break;
			case 4:
				for (int i = 0; i < size; i++) {
					h.pool.push_back(i);
				}
				break;
			case 5: h.arr.push_back(size); break;
			case 6: h.dict[1] = size; break;
			case 7: h.name = StringName(String("shared_") + itos(size)); break;
			default:
				plain = memnew(Object);
				h.var = Variant(plain);
				h.vars.push_back(h.var);
		}
		for (int t = 0; t < n; t++) {
			held.emplace_back(new Held(h));
		}
	}
	std::vector<std::function<void()>> fs;
	std::vector<int> good(n);
	for (int t = 0; t < n; t++) {
		fs.push_back([&, t] {
			Held &h = *held[t];
			volatile int w = 0;
			for (int i = 0; i < spin[t]; i++) {
				w = w + 1;
			}
			switch (kind) {
				case 0: {
					good[t] = h.ref->size() == size;
					if (copy) {
						Ref<MLPPVector> other = h.ref;
						h.ref.unref();
						good[t] += other->size() != size;
					}
					break;
				}
				case 1: {
					Ref<MLPPVector> r = h.var;
					good[t] = r->size() == size;
					break;
				}
				case 2: {
					good[t] = h.vec[size - 1] == size - 1;
					if (copy) {
						h.vec.write[0] = t;
					}
					break;
				}
				case 3: {
					good[t] = h.text.length() == size;
					if (copy) {
						h.text.set(0, 'u');
					}
					break;
				}
				case 4: {
					good[t] = h.pool[size - 1] == size - 1;
					if (copy) {
						h.pool.set(0, t);
						h.pool.push_back(4);
					}
					break;
				}
				case 5: good[t] = (int)h.arr.get(0) == size; break;
				case 6: good[t] = (int)h.dict.get_valid(1) == size; break;
				case 7: {
					StringName again(String("shared_") + itos(size));
					good[t] = again == h.name;
					h.name = StringName();
					break;
				}
				default:
					if (t == 0) {
						good[t] = (Object *)h.var == plain;
						memdelete(plain);
					} else {
						Variant v2 = h.vars[0];
						Object *o = v2;
						good[t] = o == plain || o == nullptr;
					}
			}
			held[t].reset();
		});
	}
	together(fs);
	for (int t = 0; t < n; t++) {
		c.check(good[t] == 1, "thread %d read something else", t);
	}
	c.errors();
	c.nt();
}
