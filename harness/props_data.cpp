// C19-C23: data sets, text features, mini-batches, performance measures and random initialisation
#include "core/data.h"
#include "core/lin_alg.h"
#include "core/utilities.h"
#include "ml.h"
#include "modules/softmax_net/softmax_net.h"
#include <unistd.h>

using vt::Ctx;
using vt::Src;

// ------------------------------------------------------------------------------------ C19 data sets
struct TmpFile {
	std::string path;
	TmpFile() {
		char b[64];
		snprintf(b, sizeof b, "%s/vt-data-%d.txt", getenv("VT_SCRATCH") ? getenv("VT_SCRATCH") : "/tmp", (int)getpid());
		path = b;
	}
	void write(const std::string &t) {
		FILE *f = fopen(path.c_str(), "wb");
		fwrite(t.data(), 1, t.size(), f);
		fclose(f);
	}
	~TmpFile() { unlink(path.c_str()); }
	String p() const { return String(path.c_str()); }
};
static std::string num(Src &s, double v) {
	char b[40];
	snprintf(b, sizeof b, s.one_in(3) ? "%.9e" : "%.9g", v);
	std::string t = b;
	if (s.one_in(6)) {
		t = "\"" + t + "\"";
	}
	return t;
}
// rows of numbers as CSV text, in the style the data files use
static std::string csv(Src &s, const DM &m) {
	std::string t;
	bool nl = s.flag();
	for (int i = 0; i < m.r; i++) {
		for (int j = 0; j < m.c; j++) {
			t += (j ? "," : "") + num(s, m.at(i, j));
		}
		if (i + 1 < m.r || nl) {
			t += "\n";
		}
	}
	return t;
}
static DM sub(const DM &m, int c0, int c1) {
	DM o(m.r, c1 - c0);
	for (int i = 0; i < m.r; i++) {
		for (int j = c0; j < c1; j++) {
			o.at(i, j - c0) = m.at(i, j);
		}
	}
	return o;
}
static Ref<MLPPVector> newv() {
	Ref<MLPPVector> v;
	v.instance();
	return v;
}
static Ref<MLPPMatrix> newm() {
	Ref<MLPPMatrix> v;
	v.instance();
	return v;
}

VT_PROP(C19, csv_loading, 3000) {
	Ref<MLPPData> d;
	d.instance();
	TmpFile f;
	int n = s.grown(1, 8, 40), k = s.grown(1, 5, 12), mode = (int)s.range(0, 7);
	const char *names[] = { "set_data_supervised", "set_data_unsupervised", "set_data_simple", "load_breast_cancer", "load_iris", "load_california_housing", "load_fires_and_crime", "load_mnist_train" };
	int width[] = { 0, 0, 2, 30, 4, 13, 2, 784 };
	if (width[mode]) {
		k = width[mode];
	}
	bool simple = mode == 2 || mode == 6, onehot = mode == 4 || mode == 7;
	int classes = mode == 4 ? 3 : 10;
	if (mode == 7) {
		n = std::min(n, 2);
	}
	DM m(n, mode == 1 || simple ? k : k + 1);
	for (int i = 0; i < n; i++) {
		for (int j = 0; j < m.c; j++) {
			m.at(i, j) = mode == 7 ? (double)((i * 7 + j) % 256) : s.real(50);
		}
		if (onehot) {
			m.at(i, k) = (double)s.range(0, classes - 1);
		}
	}
	std::string text = csv(s, m);
	f.write(text);
	c.note("%s of %d features: %.300s", names[mode], k, text.c_str());
	DM X = sub(m, 0, mode == 1 || simple ? m.c : k);
	DV y(n);
	for (int i = 0; i < n; i++) {
		y[i] = m.at(i, m.c - 1);
	}
	Ref<MLPPMatrix> xi = newm(), oh;
	Ref<MLPPVector> yi = newv();
	if (simple) {
		DV x0(n);
		for (int i = 0; i < n; i++) {
			x0[i] = m.at(i, 0);
		}
		Ref<MLPPVector> a = newv();
		if (mode == 2) {
			d->set_data_simple(f.p(), a, yi);
		} else {
			Ref<MLPPDataESimple> e = d->load_fires_and_crime(f.p());
			c.check(e.is_valid(), "no data set");
			a = e->get_input();
			yi = e->get_output();
		}
		eqv(c, a, x0, 1e-6, 1e-6, "inputs");
		eqv(c, yi, y, 1e-6, 1e-6, "outputs");
	} else {
		Ref<MLPPDataSimple> sd;
		Ref<MLPPDataComplex> cd;
		switch (mode) {
			case 0:
				d->set_data_supervised(k, f.p(), xi, yi);
				break;
			case 1:
				d->set_data_unsupervised(k, f.p(), xi);
				break;
			case 3:
				sd = s.flag() ? d->load_breast_cancer(f.p()) : d->load_breast_cancer_svc(f.p());
				break;
			case 4:
				cd = s.flag() ? d->load_iris(f.p()) : d->load_wine(f.p());
				break;
			case 5:
				sd = d->load_california_housing(f.p());
				break;
			case 7:
				cd = s.flag() ? d->load_mnist_train(f.p()) : d->load_mnist_test(f.p());
				break;
		}
		if (sd.is_valid()) {
			xi = sd->get_input();
			yi = sd->get_output();
		}
		if (cd.is_valid()) {
			xi = cd->get_input();
			oh = cd->get_output();
			DM w(n, classes);
			for (int i = 0; i < n; i++) {
				w.at(i, (int)y[i]) = 1;
			}
			eqm(c, oh, w, 0, 0, "one-hot outputs");
		} else if (mode != 1) {
			eqv(c, yi, y, 1e-6, 1e-6, "outputs");
		}
		eqm(c, xi, X, 1e-6, 1e-6, "inputs");
	}
	c.no_errors("loading");
	c.nt(n > 1 && k > 1);
}

VT_PROP(C19, train_test_split, 6000) {
	Ref<MLPPData> d;
	d.instance();
	int n = s.grown(1, 16, 70), kx = s.size(1, 4), ky = s.size(1, 3);
	DM X = gen_dm(s, n, kx), Y = gen_dm(s, n, ky);
	for (int i = 0; i < n; i++) {
		X.at(i, 0) = i; // rows stay recognisable
		Y.at(i, 0) = 100 + i;
	}
	int sixteenths = (int)s.range(0, 16);
	c.note("%d rows, %d+%d columns, test share %d/16", n, kx, ky, sixteenths);
	Ref<MLPPDataComplex> in;
	in.instance();
	Ref<MLPPMatrix> mx = mkm(X), my = mkm(Y);
	in->set_input(mx);
	in->set_output(my);
	Ref<MLPPDataComplex> part[2];
	if (s.flag()) {
		MLPPData::SplitComplexData r = d->train_test_split(in, sixteenths / 16.0f);
		part[0] = r.train;
		part[1] = r.test;
	} else {
		Array a = d->train_test_split_bind(in, sixteenths / 16.0f);
		c.check(a.size() == 2, "split into %d parts", a.size());
		part[0] = a[0];
		part[1] = a[1];
	}
	std::vector<int> seen(n, 0);
	for (int p = 0; p < 2; p++) {
		c.check(part[p].is_valid(), "no %s part", p ? "test" : "train");
		DM px = dm(part[p]->get_input()), py = dm(part[p]->get_output());
		int want = n * sixteenths / 16;
		if (!p) {
			want = n - want;
		}
		c.check(px.r == want && py.r == want, "%s part: %d inputs and %d outputs, expected %d", p ? "test" : "train", px.r, py.r, want);
		for (int i = 0; i < want; i++) {
			int id = (int)px.at(i, 0);
			c.check(id >= 0 && id < n, "row %d of the part is no row of the data", i);
			seen[id]++;
			for (int j = 0; j < kx; j++) {
				c.near(px.at(i, j), f32(X.at(id, j)), 0, "input row %d element %d", id, j);
			}
			for (int j = 0; j < ky; j++) {
				c.near(py.at(i, j), f32(Y.at(id, j)), 0, "output belonging to input row %d, element %d", id, j);
			}
		}
	}
	for (int i = 0; i < n; i++) {
		c.check(seen[i] == 1, "row %d occurs %d times", i, seen[i]);
	}
	eqm(c, mx, X, 0, 1e-6, "inputs afterwards");
	eqm(c, my, Y, 0, 1e-6, "outputs afterwards");
	c.no_errors("split");
	c.nt(n > 2 && sixteenths > 0 && sixteenths < 16);
}

VT_PROP(C19, scaling, 10000) {
	Ref<MLPPData> d;
	d.instance();
	int r = s.grown(1, 6, 30), k = s.grown(1, 6, 30);
	DM X = gen_dm(s, r, k, 20);
	note(c, "X", X);
	Ref<MLPPMatrix> m = mkm(X);
	Ref<MLPPMatrix> fs = d->feature_scaling(m), mc = d->mean_centering(m), mn = d->mean_normalization(m);
	for (auto *q : { &fs, &mc, &mn }) {
		c.check(q->is_valid() && (*q)->size() == Size2i(k, r), "wrong size");
	}
	for (int j = 0; j < k; j++) { // each column to 0..1
		double lo = 1e9, hi = -1e9;
		for (int i = 0; i < r; i++) {
			lo = std::min(lo, X.at(i, j));
			hi = std::max(hi, X.at(i, j));
		}
		if (hi - lo < 0.1) {
			continue;
		}
		for (int i = 0; i < r; i++) {
			c.near(fs->element_get(i, j), (X.at(i, j) - lo) / (hi - lo), 1e-5 * 20 / (hi - lo), "feature scaling, element %d %d", i, j);
		}
		c.nt();
	}
	for (int i = 0; i < r; i++) { // each row to mean 0 (and deviation 1)
		double mu = 0, sd = 0;
		for (int j = 0; j < k; j++) {
			mu += X.at(i, j) / k;
		}
		for (int j = 0; j < k; j++) {
			sd += (X.at(i, j) - mu) * (X.at(i, j) - mu);
		}
		sd = std::sqrt(sd / (k - 1));
		for (int j = 0; j < k; j++) {
			c.near(mc->element_get(i, j), X.at(i, j) - mu, 2e-5, "mean centring, element %d %d", i, j);
			if (k > 1 && sd > 0.1) {
				c.near(mn->element_get(i, j), (X.at(i, j) - mu) / sd, 4e-4 / sd + 1e-5, "normalisation, element %d %d", i, j);
			}
		}
	}
	eqm(c, m, X, 0, 1e-5, "data afterwards");
	c.no_errors("scaling");
}

VT_PROP(C19, encoding_and_sets, 10000) {
	Ref<MLPPData> d;
	d.instance();
	int n = s.grown(0, 10, 50), cl = s.grown(1, 5, 15);
	DV y(n);
	for (auto &v : y) {
		v = (double)s.range(0, cl - 1);
	}
	note(c, "labels", y);
	Ref<MLPPVector> yv = mkv(y);
	DM w(n, cl);
	DV uniq;
	Vector<String> words;
	std::vector<std::string> wu;
	for (int i = 0; i < n; i++) {
		w.at(i, (int)y[i]) = 1;
		if (std::find(uniq.begin(), uniq.end(), y[i]) == uniq.end()) {
			uniq.push_back(y[i]);
			wu.push_back("w" + std::to_string((int)y[i]));
		}
		words.push_back(String(("w" + std::to_string((int)y[i])).c_str()));
	}
	if (n > 0) {
		eqm(c, d->one_hot_rep(yv, cl), w, 0, 0, "one-hot encoding");
	}
	eqv(c, d->vec_to_setnv(yv), uniq, 0, 0, "distinct labels");
	Vector<String> ws = d->vec_to_set(words);
	c.check(ws.size() == (int)wu.size(), "distinct words: %d, expected %d", ws.size(), (int)wu.size());
	for (int i = 0; i < ws.size(); i++) {
		c.check(ws[i] == String(wu[i].c_str()), "distinct word %d is '%s'", i, ws[i].utf8().get_data());
	}
	// containers: what goes in comes out, through the methods and through the properties
	Ref<MLPPDataComplex> cd;
	cd.instance();
	Ref<MLPPMatrix> a = newm(), b = newm();
	Ref<MLPPVector> va = newv(), vb = newv();
	cd->set_input(a);
	cd->set_output(b);
	c.check(cd->get_input() == a && cd->get_output() == b, "MLPPDataComplex does not return what was set");
	Ref<MLPPDataSimple> sd;
	sd.instance();
	sd->set_input(a);
	sd->set_output(vb);
	c.check(sd->get_input() == a && sd->get_output() == vb, "MLPPDataSimple does not return what was set");
	Ref<MLPPDataESimple> ed;
	ed.instance();
	ed->set_input(va);
	ed->set_output(vb);
	c.check(ed->get_input() == va && ed->get_output() == vb, "MLPPDataESimple does not return what was set");
	c.no_errors("encoding");
	c.nt(n > 1 && cl > 1);
}

// ------------------------------------------------------------------------------------ C20 text
static const char *WORDS[] = { "cat", "Dog", "the", "is", "running", "quickly", "I", "a", "tree", "happiness", "Wonderful", "sat", "able", "cat", "on", "mat", "x", "useless", "The" };
static const char *STOPS = " i me my myself we our ours ourselves you your yours yourself yourselves he him his himself she her hers herself it its itself they them their theirs themselves what which who whom this that these those am is are was were be been being have has had having do does did doing a an the and but if or because as until while of at by for with about against between into through during before after above below to from up down in out on off over under again further then once here there when where why how all any both each few more most other some such no nor not only own same so than too very s t can will just don should now ";
static bool is_punct(char ch) { return ch == ',' || ch == '!' || ch == '.' || ch == '-'; }
static std::string lower(std::string t) {
	for (auto &ch : t) {
		ch = (char)tolower(ch);
	}
	return t;
}
static bool is_stop(const std::string &w) { return strstr(STOPS, (" " + w + " ").c_str()) != nullptr; }
static std::vector<std::string> tokens(const std::string &t) {
	std::vector<std::string> o;
	std::string cur;
	for (char ch : t) {
		if (ch == ' ' || is_punct(ch)) {
			if (!cur.empty()) {
				o.push_back(cur);
			}
			cur.clear();
			if (ch != ' ') {
				o.push_back(std::string(1, ch));
			}
		} else {
			cur += ch;
		}
	}
	if (!cur.empty()) {
		o.push_back(cur);
	}
	return o;
}
static String S(const std::string &t) { return String(t.c_str()); }
static std::string std_of(const String &t) { return t.utf8().get_data() ? std::string(t.utf8().get_data()) : std::string(); }
static std::vector<std::string> to_std(const Vector<String> &v, bool drop_empty) {
	std::vector<std::string> o;
	for (int i = 0; i < v.size(); i++) {
		std::string t = std_of(v[i]);
		if (!drop_empty || !t.empty()) {
			o.push_back(t);
		}
	}
	return o;
}
static std::string join(const std::vector<std::string> &v) {
	std::string t;
	for (auto &x : v) {
		t += (t.empty() ? "" : "|") + x;
	}
	return t;
}
static void eqs(Ctx &c, const std::vector<std::string> &g, const std::vector<std::string> &w, const char *what) {
	c.check(g == w, "%s: '%.300s', expected '%.300s'", what, join(g).c_str(), join(w).c_str());
}
// words with single spaces, punctuation only right after words (and, when wild, anywhere)
static std::string gen_text(Src &s, int words, bool wild) {
	std::string t;
	for (int i = 0; i < words; i++) {
		t += WORDS[s.draw(sizeof(WORDS) / sizeof(*WORDS))];
		int k = (int)s.draw(wild ? 9 : 5);
		static const char *sep[] = { " ", " ", " ", ", ", "! ", "-", ".", "  ", " . " };
		if (i + 1 < words || wild) {
			t += sep[k];
		} else if (s.flag()) {
			t += s.flag() ? "." : "!";
		}
	}
	return t;
}

VT_PROP(C20, segmentation, 15000) {
	Ref<MLPPData> d;
	d.instance();
	bool stop = s.flag();
	if (stop) {
		d->load_default_stop_words();
	}
	std::string t = gen_text(s, s.grown(0, 10, 60), s.flag());
	c.note("stop words %d, text '%s'", stop, t.c_str());
	std::vector<std::string> tok = tokens(t), low = tokens(lower(t)), kept;
	for (auto &w : low) {
		if (!stop || !is_stop(w)) {
			kept.push_back(w);
		}
	}
	Vector<String> seg = d->segment(S(t));
	eqs(c, to_std(seg, true), tok, "segments");
	eqs(c, to_std(d->remove_empty(seg), false), tok, "segments without the empty ones");
	// numbers stand for segments: equal ones get equal numbers, new ones the next number
	Vector<int> nums = d->tokenize(S(t));
	c.check(nums.size() == seg.size(), "tokenize: %d numbers for %d segments", nums.size(), seg.size());
	std::map<std::string, int> id;
	for (int i = 0; i < seg.size(); i++) {
		std::string w = std_of(seg[i]);
		if (!id.count(w)) {
			int next = (int)id.size() + 1;
			id[w] = next;
		}
		c.check(nums[i] == id[w], "tokenize: segment %d has number %d, expected %d", i, nums[i], id[w]);
	}
	eqs(c, to_std(d->remove_stop_words(S(t)), true), kept, "text without stop words");
	Vector<String> lowseg;
	for (auto &w : low) {
		lowseg.push_back(S(w));
	}
	eqs(c, to_std(d->remove_stop_words_vec(lowseg), false), kept, "words without stop words");
	Vector<String> spaced;
	std::vector<std::string> unspaced;
	for (auto &w : low) {
		spaced.push_back(S(" " + w + " x"));
		unspaced.push_back(w + "x");
	}
	eqs(c, to_std(d->remove_spaces(spaced), false), unspaced, "words without spaces");
	c.check(d->toLower(t) == lower(t), "lower case text");
	std::vector<char> ch = d->split(t);
	c.check(std::string(ch.begin(), ch.end()) == t, "characters of the text");
	c.no_errors("segmentation");
	c.nt(tok.size() > 2);
}

VT_PROP(C20, sentences, 15000) {
	Ref<MLPPData> d;
	d.instance();
	int n = s.grown(0, 5, 30);
	std::string text;
	std::vector<std::string> want;
	for (int i = 0; i < n; i++) {
		std::string w = gen_text(s, s.size(1, 4), false);
		for (auto &ch : w) {
			if (ch == '.') {
				ch = ',';
			}
		}
		want.push_back((i ? " " : "") + w);
		text += want.back();
		if (i + 1 < n || s.flag()) {
			text += ".";
		}
	}
	c.note("'%s'", text.c_str());
	eqs(c, to_std(d->split_sentences(S(text)), false), want, "sentences");
	c.no_errors("sentences");
	c.nt(n > 1);
}

VT_PROP(C20, stemming, 8000) {
	Ref<MLPPData> d;
	d.instance();
	d->load_default_suffixes();
	static const char *suf[] = { "eer", "er", "ion", "ity", "ment", "ness", "or", "sion", "ship", "th", "able", "ible", "al", "ant", "ary", "ful", "ic", "ious", "ous", "ive", "less", "y", "ed", "en", "ing", "ize", "ise", "ly", "ward", "wise" };
	static const char *stem[] = { "k", "walk", "trac", "mov", "glo", "book" };
	int n = s.grown(1, 6, 40);
	std::string text, want;
	for (int i = 0; i < n; i++) {
		std::string w = stem[s.draw(6)];
		for (int q = (int)s.range(0, 2); q > 0; q--) {
			w += suf[s.draw(30)];
		}
		size_t best = 0;
		for (const char *f : suf) {
			size_t l = strlen(f);
			if (l > best && w.size() >= l && w.compare(w.size() - l, l, f) == 0) {
				best = l;
			}
		}
		std::string sep = i + 1 < n ? s.pick({ " ", ", ", "-", ". ", "! " }) : "";
		text += w + sep;
		want += w.substr(0, w.size() - best) + sep;
	}
	c.note("'%s'", text.c_str());
	std::string got = std_of(d->stemming(S(text)));
	while (!got.empty() && got.back() == ' ') {
		got.pop_back();
	}
	while (!want.empty() && want.back() == ' ') {
		want.pop_back();
	}
	c.check(got == want, "stems: '%s', expected '%s'", got.c_str(), want.c_str());
	c.no_errors("stemming");
	c.nt(got != text);
}

struct Corpus {
	Vector<String> v;
	std::vector<std::vector<std::string>> seg; // words left of each sentence
	std::vector<std::string> list; // distinct words, by first appearance
	bool stop;
};
static Corpus gen_corpus(Src &s, Ctx &c, MLPPData *d, bool wild, int minw) {
	Corpus o;
	o.stop = s.flag();
	if (o.stop) {
		d->load_default_stop_words();
	}
	int n = s.size(1, 4);
	for (int i = 0; i < n; i++) {
		std::string t = gen_text(s, s.size(minw, 5), wild);
		c.note("'%s'", t.c_str());
		o.v.push_back(S(t));
		std::vector<std::string> k;
		for (auto &w : tokens(lower(t))) {
			if (!o.stop || !is_stop(w)) {
				k.push_back(w);
				if (std::find(o.list.begin(), o.list.end(), w) == o.list.end()) {
					o.list.push_back(w);
				}
			}
		}
		o.seg.push_back(k);
	}
	c.note("stop words %d", o.stop);
	return o;
}
static int word_index(const std::vector<std::string> &l, const std::string &w) { return (int)(std::find(l.begin(), l.end(), w) - l.begin()); }

VT_PROP(C20, bag_of_words, 8000) {
	Ref<MLPPData> d;
	d.instance();
	Corpus k = gen_corpus(s, c, d.ptr(), s.flag(), 1);
	if (k.list.empty()) {
		c.discard();
	}
	eqs(c, to_std(d->create_word_list(k.v), true), k.list, "word list");
	int n = (int)k.seg.size(), m = (int)k.list.size();
	DM cnt(n, m), bin(n, m);
	for (int i = 0; i < n; i++) {
		for (auto &w : k.seg[i]) {
			int j = word_index(k.list, w);
			cnt.at(i, j)++;
			bin.at(i, j) = 1;
		}
	}
	eqm(c, d->bag_of_words(k.v, MLPPData::BAG_OF_WORDS_TYPE_DEFAULT), cnt, 0, 0, "bag of words");
	eqm(c, d->bag_of_words(k.v, MLPPData::BAG_OF_WORDS_TYPE_BINARY), bin, 0, 0, "binary bag of words");
	c.no_errors("bag of words");
	c.nt(n > 1 && m > 1);
}

VT_PROP(C20, tf_idf, 8000) {
	Ref<MLPPData> d;
	d.instance();
	Corpus k = gen_corpus(s, c, d.ptr(), false, 1);
	int n = (int)k.seg.size(), m = (int)k.list.size();
	if (m == 0) {
		c.discard();
	}
	DM w(n, m);
	for (int j = 0; j < m; j++) {
		int df = 0;
		for (int i = 0; i < n; i++) {
			int q = (int)std::count(k.seg[i].begin(), k.seg[i].end(), k.list[j]);
			df += q > 0;
			if (q) {
				w.at(i, j) = (double)q / k.seg[i].size();
			}
		}
		for (int i = 0; i < n; i++) {
			w.at(i, j) *= std::log((double)n / df);
		}
	}
	eqm(c, d->tfidf(k.v), w, 1e-5, 1e-6, "tf-idf");
	c.no_errors("tf-idf");
	c.nt(n > 1 && m > 1);
}

VT_PROP(C20, latent_semantic_analysis, 1500) {
	Ref<MLPPData> d;
	d.instance();
	Corpus k = gen_corpus(s, c, d.ptr(), false, 1);
	int n = (int)k.seg.size(), m = (int)k.list.size();
	if (m == 0 || m < n) {
		c.discard();
	}
	DM A(n, m);
	for (int i = 0; i < n; i++) {
		for (auto &w : k.seg[i]) {
			A.at(i, word_index(k.list, w)) = 1;
		}
	}
	// with every dimension kept, the embeddings reproduce the inner products of the columns; fewer keep the strongest part
	DM G = A * A.t(), V = G; // eigenvalues of the small Gram matrix by Jacobi rotations
	for (int sweep = 0; sweep < 60; sweep++) {
		for (int p = 0; p < n; p++) {
			for (int q = p + 1; q < n; q++) {
				if (std::fabs(V.at(p, q)) < 1e-14) {
					continue;
				}
				double th = 0.5 * std::atan2(2 * V.at(p, q), V.at(q, q) - V.at(p, p)), cs = std::cos(th), sn = std::sin(th);
				DM R(n, n);
				for (int i = 0; i < n; i++) {
					R.at(i, i) = 1;
				}
				R.at(p, p) = R.at(q, q) = cs;
				R.at(p, q) = sn;
				R.at(q, p) = -sn;
				V = R.t() * (V * R);
			}
		}
	}
	DV ev;
	for (int i = 0; i < n; i++) {
		ev.push_back(std::max(0.0, V.at(i, i)));
	}
	std::sort(ev.rbegin(), ev.rend());
	for (double e : ev) {
		double ratio = std::sqrt(e / ev[0]);
		if (ratio > 1e-6 && ratio < 0.05) {
			c.discard();
		}
	}
	int dim = (int)s.range(1, n);
	c.note("dimensions %d", dim);
	Ref<MLPPMatrix> e = d->lsa(k.v, dim);
	c.check(e.is_valid() && e->size() == Size2i(m, dim), "embeddings: wrong size");
	DM E = dm(e);
	double fro = 0, want = 0;
	for (double v : E.a) {
		fro += v * v;
	}
	for (int i = 0; i < dim; i++) {
		want += ev[i];
	}
	c.near(fro, want, 1e-2 * (1 + want), "squared length of the embeddings");
	if (dim == n) {
		DM a = E.t() * E, b = A.t() * A;
		for (int i = 0; i < m; i++) {
			for (int j = 0; j < m; j++) {
				c.near(a.at(i, j), b.at(i, j), 0.02 * n, "inner product of the embeddings of words %d and %d", i, j);
			}
		}
	}
	c.no_errors("latent semantic analysis");
	c.nt(n > 1);
}

VT_PROP(C20, word_embeddings, 400) {
	Ref<MLPPData> d;
	d.instance();
	Corpus k = gen_corpus(s, c, d.ptr(), false, 2);
	for (auto &q : k.seg) {
		if (q.size() < 2) {
			c.discard(); // a word without neighbours has no sample
		}
	}
	int window = (int)s.range(1, 2), dim = (int)s.range(1, 3), epochs = (int)s.range(1, 3), m = (int)k.list.size();
	bool skip = s.flag();
	double lr = s.pick({ 0.125, 0.5 });
	c.note("window %d dimension %d epochs %d skip-gram %d", window, dim, epochs, skip);
	std::vector<int> in, out;
	for (auto &q : k.seg) {
		for (int j = 0; j < (int)q.size(); j++) {
			for (int w = window; w > 0; w--) {
				if (j - w >= 0) {
					in.push_back(word_index(k.list, q[j]));
					out.push_back(word_index(k.list, q[j - w]));
				}
				if (j + w < (int)q.size()) {
					in.push_back(word_index(k.list, q[j]));
					out.push_back(word_index(k.list, q[j + w]));
				}
			}
		}
	}
	DM I((int)in.size(), m), O((int)in.size(), m);
	for (size_t i = 0; i < in.size(); i++) {
		I.at((int)i, in[i]) = 1;
		O.at((int)i, out[i]) = 1;
	}
	vt::seed_entropy(7);
	MLPPData::WordsToVecResult r = d->word_to_vec(k.v, skip ? MLPPData::WORD_TO_VEC_TYPE_SKIPGRAM : MLPPData::WORD_TO_VEC_TYPE_CBOW, window, dim, (real_t)lr, epochs);
	eqs(c, to_std(r.word_list, true), k.list, "word list");
	vt::seed_entropy(7);
	MLPPSoftmaxNet *net = memnew(MLPPSoftmaxNet(mkm(skip ? O : I), mkm(skip ? I : O), dim));
	net->train_gradient_descent((real_t)lr, epochs);
	DM want = dm(net->get_embeddings());
	memdelete(net);
	c.check(r.word_embeddings.is_valid() && r.word_embeddings->size() == Size2i(dim, m), "embeddings: wrong size");
	eqm(c, r.word_embeddings, want, 1e-4, 1e-5, "embeddings");
	c.errors();
	c.nt(m > 2);
}

// ------------------------------------------------------------------------------------ C21 mini-batches
VT_PROP(C21, mini_batches, 15000) {
	Ref<MLPPUtilities> u;
	u.instance();
	int n = s.grown(1, 14, 80), nb = (int)s.range(1, std::min(n, 6)), kx = s.size(1, 3), ky = s.size(1, 3);
	DM X = gen_dm(s, n, kx), Y = gen_dm(s, n, ky);
	DV y = gen_dv(s, n);
	for (int i = 0; i < n; i++) {
		X.at(i, 0) = i;
		Y.at(i, 0) = y[i] = 100 + i;
	}
	c.note("%d rows in %d batches", n, nb);
	Ref<MLPPMatrix> mx = mkm(X), my = mkm(Y);
	Ref<MLPPVector> vy = mkv(y);
	int mode = (int)s.range(0, 8), per = n / nb;
	std::vector<DM> bx, by; // what the batches hold
	auto vecm = [](const std::vector<std::vector<real_t>> &v, int cols) {
		DM m((int)v.size(), cols);
		for (int i = 0; i < m.r; i++) {
			for (int j = 0; j < cols; j++) {
				m.at(i, j) = v[i][j];
			}
		}
		return m;
	};
	auto vcol = [](const DV &v) {
		DM m((int)v.size(), 1);
		m.a = v;
		return m;
	};
	auto stdm = [](const DM &m) {
		std::vector<std::vector<real_t>> o(m.r);
		for (int i = 0; i < m.r; i++) {
			for (int j = 0; j < m.c; j++) {
				o[i].push_back((real_t)m.at(i, j));
			}
		}
		return o;
	};
	bool mv = false;
	switch (mode) {
		case 0: {
			Vector<Ref<MLPPMatrix>> r = u->create_mini_batchesm(mx, nb);
			for (int i = 0; i < r.size(); i++) {
				bx.push_back(dm(r[i]));
			}
		} break;
		case 1: {
			auto r = u->create_mini_batchesmv(mx, vy, nb);
			mv = true;
			for (int i = 0; i < r.input_sets.size(); i++) {
				bx.push_back(dm(r.input_sets[i]));
			}
			for (int i = 0; i < r.output_sets.size(); i++) {
				by.push_back(vcol(dv(r.output_sets[i])));
			}
		} break;
		case 2: {
			auto r = u->create_mini_batchesmm(mx, my, nb);
			for (int i = 0; i < r.input_sets.size(); i++) {
				bx.push_back(dm(r.input_sets[i]));
			}
			for (int i = 0; i < r.output_sets.size(); i++) {
				by.push_back(dm(r.output_sets[i]));
			}
		} break;
		case 3: {
			Array r = u->create_mini_batchesm_bind(mx, nb);
			for (int i = 0; i < r.size(); i++) {
				Ref<MLPPMatrix> q = r[i];
				c.check(q.is_valid(), "batch %d is no matrix", i);
				bx.push_back(dm(q));
			}
		} break;
		case 4:
		case 5: {
			mv = mode == 4;
			Array r = mv ? u->create_mini_batchesmv_bind(mx, vy, nb) : u->create_mini_batchesmm_bind(mx, my, nb);
			c.check(r.size() == 2, "%d lists", r.size());
			Array xs = r[0], ys = r[1];
			for (int i = 0; i < xs.size(); i++) {
				Ref<MLPPMatrix> q = xs[i];
				bx.push_back(dm(q));
			}
			for (int i = 0; i < ys.size(); i++) {
				if (mv) {
					Ref<MLPPVector> q = ys[i];
					by.push_back(vcol(dv(q)));
				} else {
					Ref<MLPPMatrix> q = ys[i];
					by.push_back(dm(q));
				}
			}
		} break;
		case 6: {
			for (auto &q : MLPPUtilities::createMiniBatches(stdm(X), nb)) {
				bx.push_back(vecm(q, kx));
			}
		} break;
		case 7: {
			mv = true;
			auto r = MLPPUtilities::createMiniBatches(stdm(X), std::vector<real_t>(y.begin(), y.end()), nb);
			for (auto &q : std::get<0>(r)) {
				bx.push_back(vecm(q, kx));
			}
			for (auto &q : std::get<1>(r)) {
				by.push_back(vcol(DV(q.begin(), q.end())));
			}
		} break;
		default: {
			auto r = MLPPUtilities::createMiniBatches(stdm(X), stdm(Y), nb);
			for (auto &q : std::get<0>(r)) {
				bx.push_back(vecm(q, kx));
			}
			for (auto &q : std::get<1>(r)) {
				by.push_back(vecm(q, ky));
			}
		} break;
	}
	c.note("mode %d", mode);
	bool has_y = !by.empty() || (mode != 0 && mode != 3 && mode != 6);
	c.check((int)bx.size() == nb, "%d batches of inputs", (int)bx.size());
	c.check(!has_y || (int)by.size() == nb, "%d batches of outputs", (int)by.size());
	int row = 0;
	for (int i = 0; i < nb; i++) {
		int want = i == nb - 1 ? n - per * (nb - 1) : per;
		c.check(bx[i].r == want, "batch %d holds %d rows, expected %d", i, bx[i].r, want);
		c.check(!has_y || by[i].r == want, "batch %d holds %d outputs, expected %d", i, has_y ? by[i].r : 0, want);
		for (int q = 0; q < want; q++, row++) {
			for (int j = 0; j < kx; j++) {
				c.near(bx[i].at(q, j), f32(X.at(row, j)), 0, "batch %d, row %d, element %d", i, q, j);
			}
			for (int j = 0; has_y && j < (mv ? 1 : ky); j++) {
				c.near(by[i].at(q, j), f32(mv ? y[row] : Y.at(row, j)), 0, "batch %d, output of row %d, element %d", i, q, j);
			}
		}
	}
	eqm(c, mx, X, 0, 1e-6, "inputs afterwards");
	c.no_errors("mini-batches");
	c.nt(nb > 1 && n > nb);
}

// ------------------------------------------------------------------------------------ C22 measures
VT_PROP(C22, performance, 20000) {
	Ref<MLPPUtilities> u;
	u.instance();
	int n = s.grown(1, 10, 60), k = s.grown(1, 4, 12);
	DM Y(n, k), H(n, k);
	for (int i = 0; i < n * k; i++) {
		Y.a[i] = (double)s.range(-1, 2);
		H.a[i] = s.flag() ? f32(Y.a[i] + s.real_in(-0.45f, 0.45f)) : f32(s.range(-2, 3) + s.real_in(-0.45f, 0.45f));
	}
	note(c, "predictions", H);
	note(c, "labels", Y);
	int rows = 0, el = 0;
	DV h0, y0;
	PoolIntArray pi;
	std::vector<std::vector<real_t>> hs(n), ys(n);
	int ints = 0;
	for (int i = 0; i < n; i++) {
		bool all = true;
		for (int j = 0; j < k; j++) {
			all = all && std::round(H.at(i, j)) == Y.at(i, j);
			hs[i].push_back((real_t)H.at(i, j));
			ys[i].push_back((real_t)Y.at(i, j));
		}
		rows += all;
		h0.push_back(H.at(i, 0));
		y0.push_back(Y.at(i, 0));
		el += std::round(H.at(i, 0)) == Y.at(i, 0);
		int v = (int)s.range(-1, 2);
		pi.push_back(v);
		ints += v == (int)Y.at(i, 0);
	}
	c.near(u->performance_mat(mkm(H), mkm(Y)), (double)rows / n, 1e-6, "share of right rows");
	c.near(u->performance(hs, ys), (double)rows / n, 1e-6, "share of right rows (std::vector)");
	c.near(u->performance_vec(mkv(h0), mkv(y0)), (double)el / n, 1e-6, "share of right elements");
	c.near(u->performance(std::vector<real_t>(h0.begin(), h0.end()), std::vector<real_t>(y0.begin(), y0.end())), (double)el / n, 1e-6, "share of right elements (std::vector)");
	c.near(u->performance_pool_int_array_vec(pi, mkv(y0)), (double)ints / n, 1e-6, "share of right integers");
	c.no_errors("performance");
	c.nt(n > 1);
}

VT_PROP(C22, classification_measures, 20000) {
	Ref<MLPPUtilities> u;
	u.instance();
	int n = s.grown(1, 12, 80);
	std::vector<real_t> h, y;
	double q[4] = { 0, 0, 0, 0 }; // TP FP TN FN
	DV nh, ny;
	for (int i = 0; i < n; i++) {
		h.push_back(s.flag());
		y.push_back(s.flag());
		q[h[i] ? (y[i] ? 0 : 1) : (y[i] ? 3 : 2)]++;
		nh.push_back(h[i]);
		ny.push_back(y[i]);
	}
	note(c, "predictions", nh);
	note(c, "labels", ny);
	auto r = u->TF_PN(h, y);
	c.check(std::get<0>(r) == q[0] && std::get<1>(r) == q[1] && std::get<2>(r) == q[2] && std::get<3>(r) == q[3], "confusion counts %g %g %g %g, expected %g %g %g %g", std::get<0>(r), std::get<1>(r), std::get<2>(r), std::get<3>(r), q[0], q[1], q[2], q[3]);
	c.near(u->accuracy(h, y), (q[0] + q[2]) / n, 1e-6, "accuracy");
	if (q[0] > 0) {
		double re = q[0] / (q[0] + q[3]), pr = q[0] / (q[0] + q[1]);
		c.near(u->recall(h, y), re, 1e-6, "recall");
		c.near(u->precision(h, y), pr, 1e-6, "precision");
		c.near(u->f1_score(h, y), 2 * re * pr / (re + pr), 1e-6, "F1 score");
		c.nt();
	}
}

VT_PROP(C22, parameter_files, 3000) {
	Ref<MLPPUtilities> u;
	u.instance();
	TmpFile f;
	int blocks = (int)s.range(1, 3);
	std::string want;
	for (int b = 0; b < blocks; b++) {
		int kind = (int)s.range(0, 2), layer = s.flag() ? (int)s.range(0, 3) : -1, n = s.size(1, 4), k = s.size(1, 3);
		std::string suffix = layer > -1 ? " for layer " + std::to_string(layer) : "";
		auto line = [&](double v) {
			char t[40];
			snprintf(t, sizeof t, "%g\n", v);
			want += t;
		};
		auto vals = [&](int q) {
			std::vector<real_t> v;
			for (int i = 0; i < q; i++) {
				v.push_back((real_t)(s.sint(64) / 4.0));
				line(v.back());
			}
			return v;
		};
		want += "Weight(s)" + suffix + "\n";
		if (kind == 2) {
			std::vector<std::vector<real_t>> w;
			for (int i = 0; i < n; i++) {
				w.push_back(vals(k));
			}
			want += "Bias(es)" + suffix + "\n";
			u->saveParameters(f.path, w, vals(k), b > 0, layer);
		} else {
			std::vector<real_t> w = vals(n), in;
			if (kind == 1) {
				want += "Initial(s)" + suffix + "\n";
				in = vals(n);
			}
			want += "Bias" + suffix + "\n";
			real_t bias = vals(1)[0];
			if (kind == 1) {
				u->saveParameters(f.path, w, in, bias, b > 0, layer);
			} else {
				u->saveParameters(f.path, w, bias, b > 0, layer);
			}
		}
	}
	FILE *q = fopen(f.path.c_str(), "rb");
	c.check(q != nullptr, "no file");
	std::string got(65536, 0);
	got.resize(fread(&got[0], 1, got.size(), q));
	fclose(q);
	c.check(got == want, "file holds '%.400s', expected '%.400s'", got.c_str(), want.c_str());
	c.nt(blocks > 1);
}

// ------------------------------------------------------------------------------------ C23 random initialisation
// moments within six standard errors, bounds exactly
static void distribution(Ctx &c, const DV &v, bool uniform, double lo, double hi, double sd, const char *what) {
	double n = (double)v.size(), mu = 0, var = 0, mn = 1e300, mx = -1e300;
	for (double x : v) {
		mu += x / n;
		mn = std::min(mn, x);
		mx = std::max(mx, x);
	}
	for (double x : v) {
		var += (x - mu) * (x - mu) / n;
	}
	double centre = (lo + hi) / 2, s = uniform ? (hi - lo) / std::sqrt(12.0) : sd;
	c.near(mu, centre, 6 * s / std::sqrt(n), "%s: mean of %d values", what, (int)n);
	c.near(var / (s * s), 1, 6 * std::sqrt((uniform ? 0.8 : 2.0) / n) + 1e-3, "%s: variance of %d values, relative to the nominal one", what, (int)n);
	if (uniform) {
		c.check(mn >= lo - 1e-6 && mx <= hi + 1e-6, "%s: values from %g to %g, expected %g to %g", what, mn, mx, lo, hi);
	}
	DV o = v;
	std::sort(o.begin(), o.end());
	size_t same = 0;
	for (size_t i = 1; i < o.size(); i++) {
		same += o[i] == o[i - 1];
	}
	c.check(same < v.size() / 50 + 3, "%s: %d of %d values are repeats", what, (int)same, (int)n);
}
typedef MLPPUtilities U;
static void check_kind(Ctx &c, const DV &v, U::WeightDistributionType t, double fan_in, double fan_out, const char *what) {
	double b;
	switch (t) {
		case U::WEIGHT_DISTRIBUTION_TYPE_XAVIER_NORMAL:
			return distribution(c, v, false, 0, 0, std::sqrt(2 / (fan_in + fan_out)), what);
		case U::WEIGHT_DISTRIBUTION_TYPE_HE_NORMAL:
			return distribution(c, v, false, 0, 0, std::sqrt(2 / fan_in), what);
		case U::WEIGHT_DISTRIBUTION_TYPE_LE_CUN_NORMAL:
			return distribution(c, v, false, 0, 0, std::sqrt(1 / fan_in), what);
		case U::WEIGHT_DISTRIBUTION_TYPE_XAVIER_UNIFORM:
			b = std::sqrt(6 / (fan_in + fan_out));
			break;
		case U::WEIGHT_DISTRIBUTION_TYPE_HE_UNIFORM:
			b = std::sqrt(6 / fan_in);
			break;
		case U::WEIGHT_DISTRIBUTION_TYPE_LE_CUN_UNIFORM:
			b = std::sqrt(3 / fan_in);
			break;
		case U::WEIGHT_DISTRIBUTION_TYPE_UNIFORM:
			b = 1 / std::sqrt(fan_in);
			break;
		default:
			return distribution(c, v, true, 0, 1, 0, what);
	}
	distribution(c, v, true, -b, b, 0, what);
}

VT_PROP(C23, weight_initialisation, 600) {
	Ref<U> u;
	u.instance();
	vt::seed_entropy(s.draw(1 << 30));
	static const char *names[] = { "Default", "XavierNormal", "XavierUniform", "HeNormal", "HeUniform", "LeCunNormal", "LeCunUniform", "Uniform" };
	int t = (int)s.range(0, 7), in = (int)s.range(20, 70), out = (int)s.range(20, 70), mode = (int)s.range(0, 3), n = (int)s.range(900, 1500);
	U::WeightDistributionType wt = (U::WeightDistributionType)t;
	c.note("%s, mode %d, %d inputs, %d outputs, %d", names[t], mode, in, out, n);
	DV v;
	if (mode == 0) {
		Ref<MLPPVector> w = newv();
		w->resize(n);
		u->weight_initializationv(w, wt);
		c.check(w->size() == n, "the vector changed its size");
		check_kind(c, dv(w), wt, n, 1, "weight vector");
	} else if (mode == 1) {
		Ref<MLPPMatrix> w = newm();
		w->resize(Size2i(out, in)); // a row for each input
		u->weight_initializationm(w, wt);
		c.check(w->size() == Size2i(out, in), "the matrix changed its size");
		check_kind(c, dm(w).a, wt, in, out, "weight matrix");
	} else if (mode == 2) {
		std::vector<real_t> w = U::weightInitialization(n, names[t]);
		check_kind(c, DV(w.begin(), w.end()), wt, n, 1, "weights (std::vector)");
	} else {
		for (auto &r : U::weightInitialization(in, out, names[t])) {
			c.check((int)r.size() == out, "row of %d weights", (int)r.size());
			v.insert(v.end(), r.begin(), r.end());
		}
		c.check((int)v.size() == in * out, "%d weights", (int)v.size());
		check_kind(c, v, wt, in, out, "weights (nested std::vector)");
	}
	c.no_errors("initialisation");
	c.nt();
}

VT_PROP(C23, biases_and_noise, 300) {
	Ref<U> u;
	u.instance();
	vt::seed_entropy(s.draw(1 << 30));
	int n = (int)s.range(900, 1500);
	c.note("%d values", n);
	Ref<MLPPVector> b = newv();
	b->resize(n);
	b->fill(-5);
	u->bias_initializationv(b);
	c.check(b->size() == n, "the vector changed its size");
	distribution(c, dv(b), true, 0, 1, 0, "bias vector");
	std::vector<real_t> bs = U::biasInitialization(n);
	distribution(c, DV(bs.begin(), bs.end()), true, 0, 1, 0, "biases (std::vector)");
	DV one;
	for (int i = 0; i < 400; i++) {
		one.push_back(i & 1 ? u->bias_initializationr() : U::biasInitialization());
	}
	distribution(c, one, true, 0, 1, 0, "single biases");
	MLPPLinAlg la;
	int r = (int)s.range(20, 50), k = (int)s.range(20, 50);
	Ref<MLPPMatrix> g = la.gaussian_noise(r, k);
	c.check(g.is_valid() && g->size() == Size2i(k, r), "noise of the wrong size");
	distribution(c, dm(g).a, false, 0, 0, 1, "Gaussian noise");
	Ref<MLPPMatrix> own;
	own.instance();
	Ref<MLPPMatrix> g2 = own->gaussian_noise(r, k);
	c.check(g2.is_valid() && g2->size() == Size2i(k, r) && own->size() == Size2i(), "noise of the wrong size, or in the wrong matrix");
	distribution(c, dm(g2).a, false, 0, 0, 1, "Gaussian noise of a matrix");
	own->resize(Size2i(k, r));
	own->fill(50);
	own->gaussian_noise_fill();
	c.check(own->size() == Size2i(k, r), "filling with noise changed the size");
	distribution(c, dm(own).a, false, 0, 0, 1, "a matrix filled with noise");
	c.no_errors("initialisation");
	c.nt();
}
