// Drives one Pillow::NetworkAccessManager with many replies against scripted servers and records everything observable.
#include "servers.h"
#include "HttpClient.h"
#include "HttpHeader.h"
using namespace Pillow;

class Session;
struct Watch : public QObject {
	Q_OBJECT
public:
	Session *x; int k; QNetworkReply *r;
	Watch(Session *x, int k, QNetworkReply *r) : x(x), k(k), r(r) {
		connect(r, SIGNAL(metaDataChanged()), SLOT(meta())); connect(r, SIGNAL(readyRead()), SLOT(ready()));
		connect(r, SIGNAL(error(QNetworkReply::NetworkError)), SLOT(error(QNetworkReply::NetworkError))); connect(r, SIGNAL(finished()), SLOT(done()));
	}
public slots:
	void meta(); void ready(); void error(QNetworkReply::NetworkError e); void done();
};

class Session : public QObject {
	Q_OBJECT
public:
	Trace t; Pillow::NetworkAccessManager *m; Servers sv; QJsonObject script; QList<Watch *> w; QList<int> carries; QMap<QString, int> seen;
	Session(const QJsonObject &s) : m(new Pillow::NetworkAccessManager), script(s) {
		QByteArray a, d;
		foreach (const QJsonValue &v, s["servers"].toArray()) {
			sv.add(v.toString() == "down", v.toString());
			if (!a.isEmpty()) a += ",";
			a += rle(sv.auth.last());
			if (sv.down.last()) { if (!d.isEmpty()) d += ","; d += jnum(sv.auth.size()); }
		}
		t.event("srv", kv("a", "[" + a + "]") + "," + kv("down", "[" + d + "]"));
		foreach (const QJsonValue &v, s["codings"].toArray()) t.event("coding", kv("raw", rle(unrle(v.toObject()["raw"]))) + "," + kv("plain", rle(unrle(v.toObject()["plain"]))));
		connect(m, SIGNAL(finished(QNetworkReply*)), SLOT(told(QNetworkReply*)));
	}
	~Session() { disconnect(m, 0, this, 0); foreach (Watch *x, w) { if (x->r) { disconnect(x->r, 0, x, 0); delete x->r; } delete x; } delete m; }
	static QByteArray pairs(const QList<QPair<QByteArray, QByteArray> > &l) {
		QByteArray o("[");
		for (int i = 0; i < l.size(); ++i) { if (i) o.append(','); o.append('[').append(rle(l[i].first)).append(',').append(rle(l[i].second)).append(']'); }
		return o.append(']');
	}
	QByteArray K(int k) { return kv("k", jnum(k + 1)); }
	int conn(int k) { for (int c = carries.size() - 1; c >= 0; --c) if (carries[c] == k) return c; return -1; }
	bool valid(int k) { return k >= 0 && k < w.size() && w[k]->r; }

	void doOp(const QJsonObject &o) {
		const QString n = o["op"].toString(); int k = o["k"].toInt();
		if (n == "start") {
			QByteArray me = unrle(o["m"]), d = unrle(o["d"]), tg = "/k" + QByteArray::number(w.size()) + unrle(o["t"]); int s = o["s"].toInt(); bool pre = o["pre"].toBool();
			if (pre) tg = unrle(o["t"]) + "/k" + QByteArray::number(w.size());
			QList<QPair<QByteArray, QByteArray> > h;
			QNetworkRequest q(QUrl::fromEncoded("http://" + sv.auth[s] + tg));
			foreach (const QJsonValue &e, o["h"].toArray()) { QJsonArray p = e.toArray(); h << qMakePair(unrle(p[0]), unrle(p[1])); q.setRawHeader(h.last().first, h.last().second); }
			t.event("start", kv("m", rle(me)) + "," + kv("s", jnum(s + 1)) + "," + kv("t", rle(tg)) + "," + kv("h", pairs(h)) + "," + kv("d", rle(d)));
			QNetworkReply *r = 0; QBuffer *b = 0;
			if (me == "GET") r = m->get(q); else if (me == "HEAD") r = m->head(q); else if (me == "DELETE") r = m->deleteResource(q);
			else if (me == "POST") r = m->post(q, d); else if (me == "PUT") r = m->put(q, d);
			else { b = new QBuffer; b->setData(d); b->open(QIODevice::ReadOnly); r = m->sendCustomRequest(q, me, b); b->setParent(r); }
			w << new Watch(this, w.size(), r);
		} else if (n == "abort") {
			if (!valid(k)) return;
			t.event("abort", K(k)); w[k]->r->abort(); t.event("ret");
		} else if (n == "drop") {
			if (!valid(k)) return;
			QNetworkReply *r = w[k]->r; w[k]->r = 0; t.event("drop", K(k)); disconnect(r, 0, w[k], 0); r->deleteLater();
		} else if (n == "read") {
			if (valid(k)) read(k, o["n"].toInt());
		} else if (n == "send") {
			int c = conn(k); if (c < 0 || !sv.valid(c)) return;
			QByteArray d = unrle(o["d"]);
			if (d.contains('@')) for (int i = 0; i < sv.auth.size(); ++i) d.replace("@" + QByteArray::number(i + 1) + "@", sv.auth[i]);
			t.event("send", kv("c", jnum(c + 1)) + "," + kv("d", rle(d))); sv.send(c, d);
		} else if (n == "fin" || n == "rst") {
			int c = conn(k); if (c < 0 || !sv.valid(c)) return;
			t.event(n == "fin" ? "fin" : "rst", kv("c", jnum(c + 1)));
			if (n == "fin") sv.fin(c); else sv.rst(c);
		} else if (n == "idle") idle();
		else { fprintf(stderr, "unknown op %s\n", qPrintable(n)); exit(2); }
	}
	void read(int k, int n) {
		QNetworkReply *r = w[k]->r; if (!r->isOpen()) return;
		QByteArray d = n < 0 ? r->readAll() : r->read(n);
		t.event("read", K(k) + "," + kv("d", rle(d)) + "," + kv("all", jbool(n < 0)));
	}
	void idle() {
		QList<QObject *> roots; roots << m;
		settleLoop([this]() { return sv.poll([this](int i) { carries << -1; t.event("accept", kv("c", jnum(i + 1)) + "," + kv("s", jnum(sv.peers[i].srv + 1))); }); },
			[this, roots]() { return sv.unacked() || unsent(roots); });
		for (int i = 0; i < sv.peers.size(); ++i) {
			Peer &p = sv.peers[i];
			if (!p.in.isEmpty()) {
				t.event("got", kv("c", jnum(i + 1)) + "," + kv("d", rle(p.in)));
				QByteArray line = p.in.left(p.in.indexOf('\r')); int at = line.indexOf("/k");
				if (at >= 0) { int e = at + 2; while (e < line.size() && isdigit(line[e])) ++e; carries[i] = line.mid(at + 2, e - at - 2).toInt(); }
				p.in.clear();
			}
			if (p.closed && !p.announced) { p.announced = true; t.event("cclosed", kv("c", jnum(i + 1))); }
		}
		for (int k = 0; k < w.size(); ++k) if (w[k]->r && !w[k]->r->isFinished()) t.event("avail", K(k) + "," + kv("n", jnum(w[k]->r->bytesAvailable())));
		t.event("idle");
	}
	void doOps(const QJsonArray &ops) { foreach (const QJsonValue &o, ops) doOp(o.toObject()); }
	// What the application does in a notification: by reply and number of the notification, or of its kind.
	void handler(const char *what, int k) {
		QString key = QString(what) + ":" + QString::number(k); int n = seen[key]++; QJsonObject on = script["on"].toObject();
		QString one = key + ":" + QString::number(n);
		if (on.contains(one)) doOps(on[one].toArray());
	}
public slots:
	void told(QNetworkReply *r) { for (int k = 0; k < w.size(); ++k) if (w[k]->r == r) { t.event("told", K(k)); handler("told", k); return; } }
};
void Watch::meta() {
	QVariant ck = r->header(QNetworkRequest::SetCookieHeader); QList<QPair<QByteArray, QByteArray> > l;
	foreach (const QNetworkCookie &c, ck.value<QList<QNetworkCookie> >()) l << qMakePair(c.name(), c.value());
	x->t.event("meta", x->K(k) + "," + kv("code", jnum(r->attribute(QNetworkRequest::HttpStatusCodeAttribute).toInt())) + "," + kv("h", x->pairs(r->rawHeaderPairs())) + ","
		+ kv("ck", x->pairs(l)) + "," + kv("loc", rle(r->attribute(QNetworkRequest::RedirectionTargetAttribute).toUrl().toEncoded())));
	x->handler("meta", k);
}
void Watch::ready() { x->t.event("ready", x->K(k) + "," + kv("n", jnum(r->bytesAvailable()))); x->handler("ready", k); }
void Watch::error(QNetworkReply::NetworkError e) { x->t.event("error", x->K(k) + "," + kv("err", jnum(int(e)))); x->handler("error", k); }
void Watch::done() {
	x->t.event("done", x->K(k) + "," + kv("err", jnum(int(r->error()))) + "," + kv("fin", jbool(r->isFinished())) + "," + kv("n", jnum(r->bytesAvailable())) + ","
		+ kv("code", jnum(r->attribute(QNetworkRequest::HttpStatusCodeAttribute).toInt())));
	x->handler("done", k);
}

int main(int argc, char **argv) {
	QCoreApplication app(argc, argv);
	return runScripts(argc, argv, [](const QJsonObject &s) {
		Session *x = new Session(s);
		x->doOps(s["ops"].toArray());
		x->idle();
		for (int k = 0; k < x->w.size(); ++k) if (x->w[k]->r) x->read(k, -1);
		QByteArray r = "{\"id\":" + jnum(qint64(s["id"].toDouble())) + ",\"ev\":[" + x->t.ev + "]}";
		delete x;
		return r;
	});
}
#include "net_driver.moc"
