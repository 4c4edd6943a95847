// Drives one Pillow::HttpClient against scripted servers and records everything observable.
#include "servers.h"
#include "HttpClient.h"
#include "HttpHeader.h"
using namespace Pillow;

class Session : public QObject {
	Q_OBJECT
public:
	Trace t; HttpClient *c; Servers sv; QJsonObject script; int nHeaders, nData, nFinished; bool limited;
	Session(const QJsonObject &s) : c(new HttpClient), script(s), nHeaders(0), nData(0), nFinished(0), limited(false), tick(0), doneLo(-1), doneHi(-1), lo(0) {
		clock.start();
		connect(c, SIGNAL(headersCompleted()), SLOT(headers()));
		connect(c, SIGNAL(contentReadyRead()), SLOT(data()));
		connect(c, SIGNAL(finished()), SLOT(finished()));
		QByteArray a, d;
		foreach (const QJsonValue &v, s["servers"].toArray()) {
			sv.add(v.toString() == "down", v.toString());
			if (!a.isEmpty()) a += ",";
			a += rle(sv.auth.last());
			if (sv.down.last()) { if (!d.isEmpty()) d += ","; d += jnum(sv.auth.size()); }
		}
		t.event("srv", kv("a", "[" + a + "]") + "," + kv("down", "[" + d + "]"));
		foreach (const QJsonValue &v, s["codings"].toArray()) t.event("coding", kv("raw", rle(unrle(v.toObject()["raw"]))) + "," + kv("plain", rle(unrle(v.toObject()["plain"]))));
	}
	~Session() { disconnect(c, 0, this, 0); delete c; }
	QByteArray subst(QByteArray d) {
		if (d.contains('@')) for (int k = 0; k < sv.auth.size(); ++k) d.replace("@" + QByteArray::number(k + 1) + "@", sv.auth[k]);
		return d;
	}
	static HttpHeaderCollection hdrs(const QJsonValue &v) {
		HttpHeaderCollection h;
		foreach (const QJsonValue &e, v.toArray()) { QJsonArray p = e.toArray(); h << HttpHeader(unrle(p[0]), unrle(p[1])); }
		return h;
	}
	static QByteArray hdrsJson(const HttpHeaderCollection &h) {
		QByteArray o("[");
		for (int i = 0; i < h.size(); ++i) { if (i) o.append(','); o.append('[').append(rle(h.at(i).first)).append(',').append(rle(h.at(i).second)).append(']'); }
		return o.append(']');
	}
	int target(const QJsonObject &o) { int k = o["c"].toInt(-1); return k < 0 ? sv.peers.size() - 1 : k; }

	// Time since the last completion, between these bounds whatever the scheduler did.
	qint64 tick, doneLo, doneHi; QElapsedTimer clock;
	qint64 ageLo() { return qMax(qint64(0), clock.elapsed() - doneLo - 1); }
	void ageBefore() { if (c->keepAliveTimeout() >= 0 && doneLo >= 0) t.event("wait", kv("n", jnum(lo = ageLo()))); }
	void ageAfter() { if (c->keepAliveTimeout() >= 0 && doneLo >= 0 && lo <= c->keepAliveTimeout() && clock.elapsed() - doneHi + 1 >= c->keepAliveTimeout()) t.event("vague"); }
	qint64 lo;

	void doOp(const QJsonObject &o) {
		const QString k = o["op"].toString();
		if (k == "req") {
			QByteArray m = unrle(o["m"]), tg = unrle(o["t"]), d = unrle(o["d"]); HttpHeaderCollection h = hdrs(o["h"]); int s = o["s"].toInt();
			ageBefore();
			t.event("call", kv("op", jstr("req")) + "," + kv("m", rle(m)) + "," + kv("s", jnum(s + 1)) + "," + kv("t", rle(tg)) + "," + kv("h", hdrsJson(h)) + "," + kv("d", rle(d)));
			QUrl u = QUrl::fromEncoded("http://" + sv.auth[s] + tg);
			int via = o["via"].toInt();
			if (via == 0) c->request(m, u, h, d);
			else if (m == "GET" && d.isEmpty()) c->get(u, h);
			else if (m == "HEAD" && d.isEmpty()) c->head(u, h);
			else if (m == "POST") c->post(u, h, d);
			else if (m == "PUT") c->put(u, h, d);
			else if (m == "DELETE" && d.isEmpty()) c->deleteResource(u, h);
			else { HttpClientRequest r; r.method = m; r.url = u; r.headers = h; r.data = d; c->request(r); }
			ageAfter();
			t.event("ret");
		} else if (k == "abort") {
			t.event("call", kv("op", jstr("abort"))); c->abort(); t.event("ret");
		} else if (k == "follow") {
			if (c->error() != HttpClient::NoError && !c->responsePending()) return;   // unspecified after a failure
			ageBefore(); t.event("call", kv("op", jstr("follow"))); c->followRedirection(); ageAfter(); t.event("ret");
		} else if (k == "timeout") {
			c->setKeepAliveTimeout(o["n"].toInt()); t.event("call", kv("op", jstr("timeout")) + "," + kv("n", jnum(o["n"].toInt())));
		} else if (k == "limit") {
			c->setReadBufferSize(o["n"].toInt()); limited = true; t.event("call", kv("op", jstr("limit")) + "," + kv("n", jnum(o["n"].toInt())));
		} else if (k == "consume") {
			QByteArray d = c->consumeContent(); t.event("consume", kv("c", rle(d)));
		} else if (k == "wait") {
			QThread::msleep(o["n"].toInt());
		} else if (k == "send") {
			int p = target(o); QByteArray d = subst(unrle(o["d"]));
			t.event("send", kv("c", jnum(p + 1)) + "," + kv("d", rle(d)));
			sv.send(p, d);
		} else if (k == "fin" || k == "rst") {
			int p = target(o); if (!sv.valid(p)) return;
			t.event(k == "fin" ? "fin" : "rst", kv("c", jnum(p + 1)));
			if (k == "fin") sv.fin(p); else sv.rst(p);
		} else if (k == "mute") {
			int p = target(o); if (!sv.valid(p)) return;
			t.event("mute", kv("c", jnum(p + 1))); sv.peers[p].mute = true;
		} else if (k == "idle") idle();
		else { fprintf(stderr, "unknown op %s\n", qPrintable(k)); exit(2); }
	}
	void idle() {
		QList<QObject *> roots; roots << c;
		bool muted = false; foreach (const Peer &p, sv.peers) if (p.mute) muted = true;
		settleLoop([this]() { tick = clock.elapsed(); return sv.poll([this](int i) { t.event("accept", kv("c", jnum(i + 1)) + "," + kv("s", jnum(sv.peers[i].srv + 1)));
				if (script["mute"].toInt(-1) == i) { sv.peers[i].mute = true; t.event("mute", kv("c", jnum(i + 1))); } }); },
			[this, roots, muted]() { return !muted && ((!limited && sv.unacked()) || unsent(roots)); });
		for (int i = 0; i < sv.peers.size(); ++i) {
			Peer &p = sv.peers[i];
			if (!p.in.isEmpty()) { t.event("got", kv("c", jnum(i + 1)) + "," + kv("d", rle(p.in))); p.in.clear(); }
			if (p.closed && !p.announced) { p.announced = true; t.event("cclosed", kv("c", jnum(i + 1))); }
		}
		t.event("idle", kv("pend", jbool(c->responsePending())));
	}
	void doOps(const QJsonArray &ops) { foreach (const QJsonValue &o, ops) doOp(o.toObject()); }
	void handler(const char *name, int n) {
		QJsonArray l = script[name].toArray();
		if (n < l.size()) doOps(l[n].toArray());
		else if (!l.isEmpty() && script["repeat"].toBool()) doOps(l.last().toArray());
		t.event("endnote");
	}
	QByteArray resp() { return kv("code", jnum(c->statusCode())) + "," + kv("h", hdrsJson(c->headers())) + "," + kv("c", rle(c->content())); }
public slots:
	void headers() { t.event("headers", resp()); handler("onHeaders", nHeaders++); }
	void data() { t.event("data", kv("c", rle(c->content()))); handler("onData", nData++); }
	void finished() { doneLo = clock.elapsed(); doneHi = tick; t.event("finished", kv("err", jnum(int(c->error()))) + "," + resp()); handler("onFinished", nFinished++); }
};

int main(int argc, char **argv) {
	QCoreApplication app(argc, argv);
	return runScripts(argc, argv, [](const QJsonObject &s) {
		Session *x = new Session(s);
		x->doOps(s["ops"].toArray());
		x->idle();
		QByteArray r = "{\"id\":" + jnum(qint64(s["id"].toDouble())) + ",\"ev\":[" + x->t.ev + "]}";
		delete x;
		return r;
	});
}
#include "client_driver.moc"
