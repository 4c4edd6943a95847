// Builds header collections and asks them for headers through every overload.
#include "common.h"
#include "HttpHeader.h"
#include "ByteArrayHelpers.h"
using namespace Pillow;

typedef HttpHeaderCollection HC;
static Trace *T;
static QByteArray pairsJson(const QVector<HttpHeader> &l) {
	QByteArray o("[");
	for (int i = 0; i < l.size(); ++i) { if (i) o.append(','); o.append('[').append(rle(l.at(i).first)).append(',').append(rle(l.at(i).second)).append(']'); }
	return o.append(']');
}
static HttpHeader header(const QJsonValue &v) { QJsonArray p = v.toArray(); return HttpHeader(unrle(p[0]), unrle(p[1])); }
static QVector<HttpHeader> vec(const QJsonValue &v) { QVector<HttpHeader> l; foreach (const QJsonValue &e, v.toArray()) l << header(e); return l; }

// A copy that ends exactly where the text ends, so that reading on is noticed.
struct Exact { char *d; int n; Exact(const QByteArray &b) : d(new char[b.size() ? b.size() : 1]), n(b.size()) { memcpy(d, b.constData(), n); } ~Exact() { delete[] d; }
	const char *data() const { return d; } int size() const { return n; } };

// Overloads that take character arrays: one instance per length.
template <int N> struct Arr {
	char a[N + 1];
	Arr(const QByteArray &b) { memcpy(a, b.constData(), N); a[N] = 0; }
	QByteArray get(const HC &h) const { const char (&r)[N + 1] = a; return h.getFieldValue(r); }
	QVector<QByteArray> all(const HC &h) const { const char (&r)[N + 1] = a; return h.getFieldValues(r); }
	QByteArray lower(const HC &h) const { const char (&r)[N + 1] = a; return h.getFieldValue(LowerCaseToken(r)); }
	QByteArray token(const HC &h) const { const char (&r)[N + 1] = a; return h.getFieldValue(Token(r)); }
	bool test(const HC &h, const Exact &v) const { const char (&r)[N + 1] = a; return h.testFieldValue(r, v); }
	bool test2(const HC &h, const Exact &n) const { const char (&r)[N + 1] = a; return h.testFieldValue(n, r); }
	bool test3(const HC &h, const QByteArray &v) const { const char (&r)[N + 1] = a; if (v.size() == 1) { char b[2] = { v[0], 0 }; const char (&s)[2] = b; return h.testFieldValue(r, s); }
		if (v.size() == 5) { char b[6]; memcpy(b, v.constData(), 5); b[5] = 0; const char (&s)[6] = b; return h.testFieldValue(r, s); } return h.testFieldValue(r, v); }
	bool test4(const HC &h, const Exact &v) const { const char (&r)[N + 1] = a; return h.testFieldValue(Token(r), v); }
	bool raw(HC &h) const { const char (&r)[N + 1] = a; h << HttpHeader(r); return true; }
	void two(HC &h, const QByteArray &v) const { const char (&r)[N + 1] = a; if (v.size() == 1) { char b[2] = { v[0], 0 }; const char (&s)[2] = b; h << HttpHeader(r, s); } else h << HttpHeader(QByteArray(a, N), v); }
	bool eq(const QByteArray &b) const { const char (&r)[N + 1] = a; return ByteArrayHelpers::asciiEqualsCaseInsensitive(b, QLatin1Literal(r)); }
	bool eqt(const QByteArray &b) const { const char (&r)[N + 1] = a; return ByteArrayHelpers::asciiEqualsCaseInsensitive(b, Token(r)); }
	bool eql(const QByteArray &b) const { const char (&r)[N + 1] = a; return ByteArrayHelpers::asciiEqualsCaseInsensitive(b, LowerCaseToken(r)); }
};
#define SIZES(X) X(0) X(1) X(2) X(3) X(4) X(5) X(6) X(7) X(8) X(10) X(12) X(14) X(15) X(17) X(20) X(25)
#define ONE(n) case n: return Arr<n>(B).CALL;

static void nameQueries(const HC &h, const QByteArray &n, bool lower) {
	QList<QByteArray> v; Exact x(n);
	v << h.getFieldValue(x.d, x.n) << h.getFieldValue(n) << h.getFieldValue(x);
	const QByteArray &B = n;
#define CALL get(h)
	v << [&]() -> QByteArray { switch (n.size()) { SIZES(ONE) } return h.getFieldValue(n); }();
#undef CALL
#define CALL token(h)
	v << [&]() -> QByteArray { switch (n.size()) { SIZES(ONE) } return h.getFieldValue(n); }();
#undef CALL
#define CALL lower(h)
	if (lower) v << [&]() -> QByteArray { switch (n.size()) { SIZES(ONE) } return h.getFieldValue(n); }();
#undef CALL
	foreach (const QByteArray &b, v) T->event("get", kv("n", rle(n)) + "," + kv("v", rle(b)));
	QList<QVector<QByteArray> > a; a << h.getFieldValues(x.d, x.n) << h.getFieldValues(n);
#define CALL all(h)
	a << [&]() -> QVector<QByteArray> { switch (n.size()) { SIZES(ONE) } return h.getFieldValues(n); }();
#undef CALL
	foreach (const QVector<QByteArray> &l, a) { QByteArray o("["); for (int i = 0; i < l.size(); ++i) { if (i) o += ","; o += rle(l[i]); } T->event("all", kv("n", rle(n)) + "," + kv("v", o + "]")); }
}
static void valueQueries(const HC &h, const QByteArray &n, const QByteArray &v) {
	QList<bool> r; Exact x(n), y(v);
	r << h.testFieldValue(x.d, x.n, y.d, y.n) << h.testFieldValue(n, v) << h.testFieldValue(x, y);
	{ const QByteArray &B = n;
#define CALL test(h, y)
	r << [&]() -> bool { switch (n.size()) { SIZES(ONE) } return h.testFieldValue(x, y); }();
#undef CALL
#define CALL test3(h, v)
	r << [&]() -> bool { switch (n.size()) { SIZES(ONE) } return h.testFieldValue(x, y); }();
#undef CALL
#define CALL test4(h, y)
	r << [&]() -> bool { switch (n.size()) { SIZES(ONE) } return h.testFieldValue(x, y); }();
#undef CALL
	}
	{ const QByteArray &B = v;
#define CALL test2(h, x)
	r << [&]() -> bool { switch (v.size()) { SIZES(ONE) } return h.testFieldValue(x, y); }();
#undef CALL
	}
	foreach (bool b, r) T->event("test", kv("n", rle(n)) + "," + kv("v", rle(v)) + "," + kv("r", jbool(b)));
}
// All pairs of single bytes, embedded in equal text, through every comparison.
static void pairs(const QByteArray &pre, const QByteArray &post) {
	for (int way = 0; way < 11; ++way) for (int b = 0; b < 256; ++b) {
		if (way == 6 && b == 0) continue; // a QLatin1Literal ends at its first NUL
		QByteArray q = pre + char(b) + post, m("[");
		if (way == 3 || way == 4) { // lower-case text only, as its user asserts
			if (b >= 'A' && b <= 'Z') continue;
			for (int i = 0; i < q.size(); ++i) if (q[i] >= 'A' && q[i] <= 'Z') q[i] = q[i] + 32;
		}
		for (int a = 0; a < 256; ++a) {
			QByteArray n = pre + char(a) + post; HC h; if (way == 2) h << HttpHeader("key", n); else h << HttpHeader(n, "1"); bool y = false;
			const QByteArray &B = q;
			switch (way) {
			case 0: y = h.getFieldValue(Exact(q)) == "1"; break;
			case 1: y = !h.getFieldValues(q).isEmpty(); break;
			case 2: y = h.testFieldValue(QByteArray("key"), q); break;
#define CALL lower(h)
			case 3: y = [&]() -> QByteArray { switch (B.size()) { SIZES(ONE) } return h.getFieldValue(q); }() == "1"; break;
#undef CALL
#define CALL eql(n)
			case 4: y = [&]() -> bool { switch (B.size()) { SIZES(ONE) } return ByteArrayHelpers::asciiEqualsCaseInsensitive(n, q); }(); break;
#undef CALL
#define CALL eqt(n)
			case 5: y = [&]() -> bool { switch (B.size()) { SIZES(ONE) } return ByteArrayHelpers::asciiEqualsCaseInsensitive(n, q); }(); break;
#undef CALL
#define CALL eq(n)
			case 6: y = [&]() -> bool { switch (B.size()) { SIZES(ONE) } return ByteArrayHelpers::asciiEqualsCaseInsensitive(n, q); }(); break;
#undef CALL
			case 7: y = ByteArrayHelpers::asciiEqualsCaseInsensitive(n, q); break;
			case 8: { Exact x(n), z(q); y = ByteArrayHelpers::asciiEqualsCaseInsensitive(x.d, x.n, z.d, z.n); } break;
			case 9: y = h.testFieldValue(q, QByteArray("1")); break;
			case 10: y = h.getFieldValue(q) == "1"; break;
			}
			if (y) { if (m.size() > 1) m += ","; m += QByteArray::number(a); }
		}
		T->event("pairs", kv("b", jnum(b)) + "," + kv("m", m + "]"));
	}
}
static QByteArray runOne(const QJsonObject &s) {
	Trace t; T = &t; HC h;
	foreach (const QJsonValue &v, s["ops"].toArray()) {
		QJsonObject o = v.toObject(); QString k = o["e"].toString(); int how = o["how"].toInt();
		if (k == "add") {
			HttpHeader x = header(o["h"]);
			if (how == 0) h << x; else if (how == 1) h += x; else if (how == 2) { const QByteArray &B = x.first;
#define CALL two(h, x.second)
				[&]() { switch (B.size()) { SIZES(ONE) } h << x; }();
#undef CALL
			} else h = h + (QVector<HttpHeader>() << x);
			t.event("add", kv("h", "[" + rle(x.first) + "," + rle(x.second) + "]"));
		} else if (k == "raw") {
			QByteArray d = unrle(o["d"]); const QByteArray &B = d; bool done = false;
#define CALL raw(h)
			done = [&]() -> bool { switch (B.size()) { SIZES(ONE) } return false; }();
#undef CALL
			if (done) t.event("raw", kv("d", rle(d)));
		} else if (k == "cat") {
			QVector<HttpHeader> l = vec(o["l"]);
			if (how == 0) h += l; else if (how == 1) h << l; else h = h + l;
			t.event("cat", kv("l", pairsJson(l)));
		} else if (k == "self") {
			if (how == 0) h += h; else if (how == 1) h << h; else h = h + h;
			t.event("self");
		} else if (k == "clear") { h.clear(); t.event("clear");
		} else if (k == "sum") {
			QVector<HttpHeader> l = vec(o["l"]); HC before = h; HC r = h + l;
			t.event("sum", kv("with", pairsJson(l)) + "," + kv("l", pairsJson(r)));
		} else if (k == "ask") {
			t.event("list", kv("l", pairsJson(h)));
			foreach (const QJsonValue &n, o["names"].toArray()) { QByteArray b = unrle(n); bool lower = true; for (int i = 0; i < b.size(); ++i) if (b[i] >= 'A' && b[i] <= 'Z') lower = false; nameQueries(h, b, lower);
				foreach (const QJsonValue &w, o["values"].toArray()) valueQueries(h, b, unrle(w)); }
			t.event("list", kv("l", pairsJson(h)));
		} else if (k == "pairs") pairs(unrle(o["pre"]), unrle(o["post"]));
	}
	return "{\"id\":" + QByteArray::number(s["id"].toInt()) + ",\"ev\":[" + t.ev + "]}";
}
int main(int argc, char **argv) { return runScripts(argc, argv, runOne); }
