// Drives one Pillow::HttpConnection over an in-memory device with a controllable output queue
// and records everything observable.
#include "common.h"
#include "HttpConnection.h"
#include "HttpHeader.h"
using namespace Pillow;

class FakeDevice : public QIODevice {
public:
	QByteArray in, held;           // unread input; output accepted but not yet "written to the OS"
	QByteArray *out;               // all output accepted, not yet reported
	bool hold;                     // keep output in the queue until drained
	FakeDevice(QByteArray *out, bool hold) : out(out), hold(hold) { open(QIODevice::ReadWrite | QIODevice::Unbuffered); }
	bool isSequential() const { return true; }
	qint64 bytesAvailable() const { return in.size() - inPos + QIODevice::bytesAvailable(); }
	qint64 bytesToWrite() const { return hold ? held.size() : 0; }
	void feed(const QByteArray &d) { if (!isOpen()) return; in.append(d); emit readyRead(); }
	void drain(qint64 n) { if (n > held.size()) n = held.size(); if (n <= 0) return; held.remove(0, int(n)); emit bytesWritten(n); }
protected:
	int inPos = 0; // read up to here
	qint64 readData(char *d, qint64 n) { n = qMin(n, qint64(in.size() - inPos)); memcpy(d, in.constData() + inPos, size_t(n)); inPos += int(n); if (inPos == in.size()) { in.clear(); inPos = 0; } return n; }
	qint64 writeData(const char *d, qint64 n) { out->append(d, int(n)); if (hold) held.append(d, int(n)); return n; }
};

class Session : public QObject {
	Q_OBJECT
public:
	Trace t; HttpConnection *c; FakeDevice *din, *dout; QByteArray out; QJsonObject script;
	int nReady, nCompleted, nClosed; bool outstanding; QList<QObject*> trash;
	Session(const QJsonObject &s) : c(new HttpConnection), din(0), dout(0), script(s), nReady(0), nCompleted(0), nClosed(0), outstanding(false) {
		connect(c, SIGNAL(requestReady(Pillow::HttpConnection*)), SLOT(ready()));
		connect(c, SIGNAL(requestCompleted(Pillow::HttpConnection*)), SLOT(completed()));
		connect(c, SIGNAL(closed(Pillow::HttpConnection*)), SLOT(closed()));
	}
	~Session() { disconnect(c, 0, this, 0); delete c; qDeleteAll(trash); }

	static HttpHeaderCollection headers(const QJsonValue &v) {
		HttpHeaderCollection h;
		foreach (const QJsonValue &e, v.toArray()) { QJsonArray p = e.toArray(); h << HttpHeader(unrle(p[0]), unrle(p[1])); }
		return h;
	}
	static QByteArray headersJson(const HttpHeaderCollection &h) {
		QByteArray o("[");
		for (int i = 0; i < h.size(); ++i) { if (i) o.append(','); o.append('[').append(rle(h.at(i).first)).append(',').append(rle(h.at(i).second)).append(']'); }
		return o.append(']');
	}
	QByteArray fields() {
		return kv("m", rle(c->requestMethod())) + "," + kv("u", rle(c->requestUri())) + "," + kv("p", rle(c->requestPath())) + ","
			+ kv("q", rle(c->requestQueryString())) + "," + kv("f", rle(c->requestFragment())) + "," + kv("v", rle(c->requestHttpVersion())) + ","
			+ kv("h", headersJson(c->requestHeaders())) + "," + kv("c", rle(c->requestContent()));
	}
	QByteArray paramsJson() {
		QByteArray o("["); const HttpParamCollection &p = c->requestParams();
		for (int i = 0; i < p.size(); ++i) { if (i) o.append(','); o.append('[').append(rle(p.at(i).first)).append(',').append(rle(p.at(i).second)).append(']'); }
		return o.append(']');
	}
	void flushOut() { if (!out.isEmpty()) { t.event("out", kv("d", rle(out))); out.clear(); } }
	qint64 pend() { return dout && dout->isOpen() ? dout->bytesToWrite() : 0; }

	// The request accessors are only meaningful while a request is outstanding.
	static bool inspects(const QString &k) { return k == "fields" || k == "params" || k == "param" || k == "setparam" || k == "header" || k == "decoded"; }
	void doOp(const QJsonObject &o) {
		const QString k = o["op"].toString();
		if (inspects(k) && !outstanding) return;
		if (k == "init") {
			bool hold = o["hold"].toBool(), split = o["split"].toBool();
			if (din) trash << din; if (dout && dout != din) trash << dout;
			din = new FakeDevice(&out, hold);
			dout = split ? new FakeDevice(&out, hold) : din;
			t.event("init");
			if (o.contains("pre")) { QByteArray d = unrle(o["pre"]); t.event("arrive", kv("d", rle(d))); din->in.append(d); }
			c->initialize(din, dout);
			idle();
		} else if (k == "feed") {
			QByteArray d = unrle(o["d"]);
			t.event("arrive", kv("d", rle(d)));
			din->feed(d);
		} else if (k == "drain") {
			t.event("drain");
			dout->drain(qint64(o["n"].toDouble()));
		} else if (k == "peer") {
			t.event("peer");
			din->close();
			t.event("ret");
		} else if (k == "idle") {
			idle();
		} else if (k == "fields") {
			t.event("fields", fields());
		} else if (k == "params") {
			t.event("params", kv("v", paramsJson()));
		} else if (k == "param") {
			QString n = QString::fromUtf8(unrle(o["k"]));
			t.event("param", kv("k", rle(n)) + "," + kv("v", rle(c->requestParamValue(n))));
		} else if (k == "setparam") {
			QString n = QString::fromUtf8(unrle(o["k"])), v = QString::fromUtf8(unrle(o["v"]));
			c->setRequestParam(n, v);
			t.event("setparam", kv("k", rle(n)) + "," + kv("v", rle(v)));
		} else if (k == "header") {
			QByteArray n = unrle(o["k"]);
			t.event("header", kv("k", rle(n)) + "," + kv("v", rle(c->requestHeaderValue(n))));
		} else if (k == "decoded") {
			t.event("decoded", kv("u", rle(c->requestUriDecoded())) + "," + kv("p", rle(c->requestPathDecoded())) + ","
				+ kv("q", rle(c->requestQueryStringDecoded())) + "," + kv("f", rle(c->requestFragmentDecoded())));
		} else {
			QByteArray a = kv("op", jstr(k.toLatin1()));
			if (k == "wr" || k == "ws") a += "," + kv("s", jnum(qint64(o["s"].toDouble()))) + "," + kv("h", headersJson(headers(o["h"]))) + "," + kv("c", rle(unrle(o["c"])));
			else if (k == "wh") a += "," + kv("s", jnum(qint64(o["s"].toDouble()))) + "," + kv("h", headersJson(headers(o["h"])));
			else if (k == "wc") a += "," + kv("c", rle(unrle(o["c"])));
			t.event("call", a);
			if (k == "wr") c->writeResponse(o["s"].toInt(), headers(o["h"]), unrle(o["c"]));
			else if (k == "ws") c->writeResponseString(o["s"].toInt(), headers(o["h"]), QString::fromUtf8(unrle(o["c"])));
			else if (k == "wh") c->writeHeaders(o["s"].toInt(), headers(o["h"]));
			else if (k == "wc") c->writeContent(unrle(o["c"]));
			else if (k == "ec") c->endContent();
			else if (k == "close") c->close();
			else if (k == "flush") c->flush();
			else { fprintf(stderr, "unknown op %s\n", qPrintable(k)); exit(2); }
			t.event("ret");
		}
	}
	void idle() {
		for (int i = 0; i < 3; ++i) { QCoreApplication::sendPostedEvents(0, 0); QCoreApplication::processEvents(); }
		flushOut();
		t.event("idle", kv("st", jnum(c->state())) + "," + kv("pend", jnum(pend())));
	}
	void doOps(const QJsonArray &ops) { foreach (const QJsonValue &o, ops) doOp(o.toObject()); }
	void handler(const char *name, int n, const char *endname) {
		QJsonArray l = script[name].toArray();
		if (!l.isEmpty()) doOps(l[qMin(n, l.size() - 1)].toArray());
		t.event(endname);
	}
public slots:
	void ready() { flushOut(); outstanding = true; t.event("ready", fields() + "," + kv("st", jnum(c->state()))); handler("onReady", nReady++, "endready"); }
	void completed() { flushOut(); t.event("completed", kv("code", jnum(c->responseStatusCode())) + "," + kv("len", jnum(c->responseContentLength())) + "," + kv("st", jnum(c->state()))); handler("onCompleted", nCompleted++, "endcompleted"); outstanding = false; }
	void closed() { outstanding = false; flushOut(); t.event("closed", kv("left", jnum(dout && dout->hold ? dout->held.size() : 0)) + "," + kv("st", jnum(c->state()))); handler("onClosed", nClosed++, "endclosed"); }
};

int main(int argc, char **argv) {
	QCoreApplication app(argc, argv);
	return runScripts(argc, argv, [](const QJsonObject &s) {
		Session *x = new Session(s);
		x->doOps(s["ops"].toArray());
		x->idle();
		QByteArray r = "{\"id\":" + jnum(qint64(s["id"].toDouble())) + ",\"ev\":[" + x->t.ev + "]}";
		delete x;
		return r;
	});
}
#include "conn_driver.moc"
