// Drives HttpHandlerQtScript and HttpHandlerQtScriptFile on one connection over an in-memory device:
// records what the script sees of each request, what it does, and everything the client gets.
#include "common.h"
#include <QtScript/QScriptEngine>
#include <QtScript/QScriptValueIterator>
#include "HttpConnection.h"
#include "HttpHeader.h"
#include "HttpHandlerQtScript.h"
using namespace Pillow;

class FakeDevice : public QIODevice {
public:
	QByteArray in, *out;
	FakeDevice(QByteArray *out) : out(out) { open(QIODevice::ReadWrite | QIODevice::Unbuffered); }
	bool isSequential() const { return true; }
	qint64 bytesAvailable() const { return in.size() - inPos + QIODevice::bytesAvailable(); }
	void feed(const QByteArray &d) { if (!isOpen()) return; in.append(d); emit readyRead(); }
protected:
	int inPos = 0; // read up to here
	qint64 readData(char *d, qint64 n) { n = qMin(n, qint64(in.size() - inPos)); memcpy(d, in.constData() + inPos, size_t(n)); inPos += int(n); if (inPos == in.size()) { in.clear(); inPos = 0; } return n; }
	qint64 writeData(const char *d, qint64 n) { out->append(d, int(n)); return n; }
};

// The script: reports what it was given and carries out the plan made for the request.
static const char interpreter[] =
	"function follow(version, request) {\n"
	"	rec.saw(version, request);\n"
	"	var p = JSON.parse(rec.plan()), n = request.nativeRequest;\n"
	"	for (var i = 0; i < p.acts.length; ++i) {\n"
	"		var a = p.acts[i], h = {};\n"
	"		for (var j = 0; a.h && j < a.h.length; ++j) h[a.h[j][0]] = a.h[j][1];\n"
	"		rec.call(i);\n"
	"		if (a.op == 'wr') n.writeResponse(a.s, h, a.c);\n"
	"		else if (a.op == 'ws') n.writeResponseString(a.s, h, a.c);\n"
	"		else if (a.op == 'wh') n.writeHeaders(a.s, h);\n"
	"		else if (a.op == 'wc') n.writeContent(a.c);\n"
	"		else if (a.op == 'ec') n.endContent();\n"
	"		else if (a.op == 'flush') n.flush();\n"
	"		else if (a.op == 'close') n.close();\n"
	"		rec.ret();\n"
	"	}\n"
	"	if (p.end == 'value') { rec.returned(p.value ? true : false); return p.value; }\n"
	"	if (p.end == 'nothing') { rec.returned(false); return; }\n"
	"	if (p.end == 'object') { rec.returned(true); return { a: false }; }\n"
	"	rec.threw();\n"
	"	if (p.end == 'error') throw new Error('boom');\n"
	"	if (p.end == 'string') throw 'boom';\n"
	"	if (p.end == 'number') throw 42;\n"
	"	if (p.end == 'zero') throw 0;\n"
	"	if (p.end == 'thrown-object') throw { code: 7 };\n"
	"	if (p.end == 'undefined') return notDefinedAnywhere();\n"
	"	if (p.end == 'type') return null.x;\n"
	"	if (p.end == 'native') return n.noSuchFunction(1);\n"
	"	return (function again(x) { return again(x + 1) + 1; })(0);\n"
	"}\n";

class World : public QObject {
	Q_OBJECT
public:
	Trace t; QJsonObject script; HttpConnection *c; FakeDevice *dev; QByteArray out; QScriptEngine engine; HttpHandlerQtScript *handler; HttpHandlerQtScriptFile *file;
	QTemporaryDir dir; int nReady; QJsonObject plans; QJsonArray acts; qint64 clock; bool outstanding, inside; QJsonArray during; QList<QObject *> trash; QSet<qint64> times;
	World(const QJsonObject &s) : script(s), c(new HttpConnection), dev(0), handler(0), file(0), nReady(0), clock(1500000000000LL), outstanding(false), inside(false) {
		engine.globalObject().setProperty("rec", engine.newQObject(this));
		engine.evaluate(interpreter);
		if (engine.hasUncaughtException()) { fprintf(stderr, "interpreter broken\n"); exit(2); }
		t.event("cfg", kv("mode", jstr(s["mode"].toString().toLatin1())) + "," + kv("auto", jbool(s["auto"].toBool())));
		if (s["mode"].toString() == "file") handler = file = new HttpHandlerQtScriptFile(&engine, path(), "handle", s["auto"].toBool());
		else handler = new HttpHandlerQtScript;
		connect(c, SIGNAL(requestReady(Pillow::HttpConnection*)), SLOT(ready()));
		connect(c, SIGNAL(requestCompleted(Pillow::HttpConnection*)), SLOT(completed()));
		connect(c, SIGNAL(closed(Pillow::HttpConnection*)), SLOT(closed()));
	}
	~World() { disconnect(c, 0, this, 0); delete c; delete handler; qDeleteAll(trash); delete dev; }
	QString path() { return dir.path() + "/handler.js"; }

	static HttpHeaderCollection headers(const QJsonValue &v) { HttpHeaderCollection h; foreach (const QJsonValue &e, v.toArray()) h << HttpHeader(e.toArray()[0].toString().toUtf8(), e.toArray()[1].toString().toUtf8()); return h; }
	static QByteArray headersJson(const HttpHeaderCollection &h) {
		QByteArray o("[");
		for (int i = 0; i < h.size(); ++i) { if (i) o.append(','); o.append('[').append(rle(h.at(i).first)).append(',').append(rle(h.at(i).second)).append(']'); }
		return o.append(']');
	}
	void flushOut() { if (!out.isEmpty()) { t.event("out", kv("d", rle(out))); out.clear(); } }
	QByteArray text(const QJsonObject &o) {
		const QString k = o["kind"].toString(); const QByteArray n = QByteArray::number(o["n"].toInt());
		QByteArray good = "function handle(request) { return follow(" + n + ", request); }\n", d = o.contains("during") ? "rec.edited();\n" : "";
		if (k == "good") return d + "var helper = " + n + ";\n" + good;
		if (k == "later") return d + "var handle = function (request) { return follow(" + n + ", request); };\n";
		if (k == "local") return d + "var version = " + n + "; function handle(request) { return follow(version, request); }\n";
		if (k == "syntax") return good + "function broken( {\n";
		if (k == "toperror") return good + "throw new Error('on load');\n";
		if (k == "topstring") return good + "throw 'on load';\n";
		if (k == "nofunction") return d + "var handled = 1; function other(request) { return follow(" + n + ", request); }\n";
		if (k == "number") return d + "var handle = 7;\n";
		if (k == "empty") return "";
		fprintf(stderr, "bad file kind %s\n", qPrintable(k)); exit(2);
	}
	void edit(const QJsonObject &o) {
		const QString k = o["kind"].toString();
		t.event("file", kv("kind", jstr(k.toLatin1())) + "," + kv("n", jnum(o["n"].toInt())));
		if (k == "missing") { QFile::remove(path()); return; }
		during = o["during"].toArray();
		QFile f(o["replace"].toBool() ? path() + ".new" : path());
		if (!f.open(QIODevice::WriteOnly | QIODevice::Truncate)) { fprintf(stderr, "cannot write script\n"); exit(2); }
		f.write(text(o));
		f.flush();
		for (clock += qint64(o["dt"].toDouble()); times.contains(clock); ++clock) {}   // every edit has a time of its own
		times.insert(clock);
		if (!f.setFileTime(QDateTime::fromMSecsSinceEpoch(clock), QFileDevice::FileModificationTime)) { fprintf(stderr, "cannot set time\n"); exit(2); }
		f.close();
		if (o["replace"].toBool() && ::rename(QFile::encodeName(path() + ".new").constData(), QFile::encodeName(path()).constData())) { perror("rename"); exit(2); }
	}
	void doOp(const QJsonObject &o) {
		const QString k = o["op"].toString();
		if (k == "init") { t.event("init"); trash << dev; dev = new FakeDevice(&out); c->initialize(dev, dev); idle();
		} else if (k == "feed") { QByteArray d = unrle(o["d"]); t.event("arrive", kv("d", rle(d))); if (dev) dev->feed(d);
		} else if (k == "peer") { t.event("peer"); dev->close(); t.event("ret");
		} else if (k == "idle") idle();
		else if (k == "file") edit(o);
		else if (k == "fn") {
			const QString kind = o["kind"].toString();
			t.event("fn", kv("kind", jstr(kind.toLatin1())) + "," + kv("n", jnum(o["n"].toInt())));
			if (kind == "good") handler->setScriptFunction(engine.evaluate("(function (request) { return follow(" + QString::number(o["n"].toInt()) + ", request); })"));
			else if (kind == "number") handler->setScriptFunction(QScriptValue(&engine, 7));
			else handler->setScriptFunction(QScriptValue());
		} else if (k == "late") { if (outstanding) native(o["acts"].toArray()); }
		else { fprintf(stderr, "unknown op %s\n", qPrintable(k)); exit(2); }
	}
	QByteArray callJson(const QJsonObject &o) {
		const QString k = o["op"].toString(); QByteArray a = kv("op", jstr(k.toLatin1()));
		if (k == "wr" || k == "ws" || k == "wh") a += "," + kv("s", jnum(o["s"].toInt())) + "," + kv("h", headersJson(headers(o["h"])));
		if (k == "wr" || k == "ws" || k == "wc") a += "," + kv("c", rle(o["c"].toString().toUtf8()));
		return a;
	}
	void native(const QJsonArray &l) {          // a native handler after all
		const int mine = nReady;
		foreach (const QJsonValue &v, l) {
			if (!outstanding || nReady != mine) break;
			const QJsonObject o = v.toObject(); const QString k = o["op"].toString();
			t.event("call", callJson(o));
			if (k == "wr") c->writeResponse(o["s"].toInt(), headers(o["h"]), o["c"].toString().toUtf8());
			else if (k == "ws") c->writeResponseString(o["s"].toInt(), headers(o["h"]), o["c"].toString());
			else if (k == "wh") c->writeHeaders(o["s"].toInt(), headers(o["h"]));
			else if (k == "wc") c->writeContent(o["c"].toString().toUtf8());
			else if (k == "ec") c->endContent();
			else if (k == "close") c->close();
			t.event("ret");
		}
	}
	void idle() {
		for (int i = 0; i < 3; ++i) { QCoreApplication::sendPostedEvents(0, 0); QCoreApplication::processEvents(); }
		flushOut();
		t.event("idle", kv("st", jnum(c->state())) + "," + kv("pend", jnum(0)));
	}
	QByteArray object(const QScriptValue &v) {
		QByteArray o("[");
		for (QScriptValueIterator it(v); it.hasNext();) { it.next(); if (o.size() > 1) o.append(','); o.append('[').append(rle(it.name())).append(',').append(rle(it.value().toString())).append(']'); }
		return o.append(']');
	}
	void doOps(const QJsonArray &ops) { foreach (const QJsonValue &o, ops) doOp(o.toObject()); }
	QJsonObject current() { QJsonArray l = script["plans"].toArray(); return l.isEmpty() ? QJsonObject() : l[(nReady - 1) % l.size()].toObject(); }
	// ---- called by the script
	Q_INVOKABLE void saw(int version, const QScriptValue &r) {
		t.event("saw", kv("n", jnum(version)) + "," + kv("m", rle(r.property("requestMethod").toString())) + "," + kv("u", rle(r.property("requestUri").toString())) + ","
			+ kv("p", rle(r.property("requestPath").toString())) + "," + kv("q", rle(r.property("requestQueryString").toString())) + "," + kv("f", rle(r.property("requestFragment").toString())) + ","
			+ kv("h", object(r.property("requestHeaders"))) + "," + kv("ps", object(r.property("requestQueryParams"))) + "," + kv("c", rle(r.property("requestContent").toString())));
	}
	Q_INVOKABLE QString plan() {
		QJsonObject p = current();
		acts = p["acts"].toArray();
		return QString::fromUtf8(QJsonDocument(p).toJson(QJsonDocument::Compact));
	}
	Q_INVOKABLE void call(int i) { t.event("call", callJson(acts[i].toObject())); }
	Q_INVOKABLE void ret() { t.event("ret"); }
	Q_INVOKABLE void returned(bool v) { t.event("returned", kv("v", jbool(v))); }
	Q_INVOKABLE void threw() { flushOut(); t.event("threw"); }
	Q_INVOKABLE void edited() { QJsonArray l = during; during = QJsonArray(); foreach (const QJsonValue &o, l) edit(o.toObject()); }
public slots:
	void ready() {
		flushOut(); outstanding = true; ++nReady;
		t.event("ready", kv("m", rle(c->requestMethod())) + "," + kv("u", rle(c->requestUri())) + "," + kv("p", rle(c->requestPath())) + ","
			+ kv("q", rle(c->requestQueryString())) + "," + kv("f", rle(c->requestFragment())) + "," + kv("v", rle(c->requestHttpVersion())) + ","
			+ kv("h", headersJson(c->requestHeaders())) + "," + kv("c", rle(c->requestContent())) + "," + kv("st", jnum(c->state())));
		t.event("handle");
		bool r = handler->handleRequest(c);
		flushOut();
		t.event("handled", kv("ret", jbool(r)));
		QJsonObject p = current();
		if (!r) native(p["else"].toArray());
		if (p["leave"].toBool()) { t.event("peer"); dev->close(); t.event("ret"); }
	}
	void completed() { outstanding = false; flushOut(); t.event("completed", kv("code", jnum(c->responseStatusCode())) + "," + kv("len", jnum(c->responseContentLength())) + "," + kv("st", jnum(c->state()))); t.event("endcompleted"); }
	void closed() { outstanding = false; flushOut(); t.event("closed", kv("left", jnum(0)) + "," + kv("st", jnum(c->state()))); t.event("endclosed"); }
};

int main(int argc, char **argv) {
	QCoreApplication app(argc, argv);
	return runScripts(argc, argv, [](const QJsonObject &s) {
		World *x = new World(s);
		x->doOps(s["ops"].toArray());
		x->idle();
		QByteArray r = "{\"id\":" + jnum(qint64(s["id"].toDouble())) + ",\"ev\":[" + x->t.ev + "]}";
		delete x;
		return r;
	});
}
#include "script_driver.moc"
