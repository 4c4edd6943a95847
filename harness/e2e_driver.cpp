// Drives Pillow::HttpClients against Pillow::HttpServers of the same process and records what
// both applications observe.
#include "servers.h"
#include "HttpServer.h"
#include "HttpConnection.h"
#include "HttpClient.h"
#include "HttpHeader.h"
using namespace Pillow;

static HttpHeaderCollection hdrs(const QJsonValue &v) {
	HttpHeaderCollection h;
	foreach (const QJsonValue &e, v.toArray()) { QJsonArray p = e.toArray(); h << HttpHeader(unrle(p[0]), unrle(p[1])); }
	return h;
}
static QByteArray hdrsJson(const HttpHeaderCollection &h) {
	QByteArray o("[");
	for (int i = 0; i < h.size(); ++i) { if (i) o.append(','); o.append('[').append(rle(h.at(i).first)).append(',').append(rle(h.at(i).second)).append(']'); }
	return o.append(']');
}

class World;
class User : public QObject {           // one client and its application
	Q_OBJECT
public:
	World *w; HttpClient *c; int id, nHeaders, nData, nFinished; QJsonObject script; bool failed;
	User(World *w, int id, const QJsonObject &script);
	~User() { disconnect(c, 0, this, 0); delete c; }
	QByteArray me() { return kv("cl", jnum(id)); }
	QByteArray resp() { return me() + "," + kv("code", jnum(c->statusCode())) + "," + kv("h", hdrsJson(c->headers())) + "," + kv("c", rle(c->content())); }
	void doOp(const QJsonObject &o);
	void handler(const char *name, int n);
public slots:
	void headers(); void data(); void finished();
};

class World : public QObject {
	Q_OBJECT
public:
	Trace t; QJsonObject script, app; QList<HttpServer *> servers; QList<int> holes; QList<QByteArray> auth; QList<User *> users;
	QHash<HttpConnection *, int> ks; QHash<HttpConnection *, QByteArray> outstanding; QMap<HttpConnection *, int> readies; int nk; bool limited;
	World(const QJsonObject &s) : script(s), app(s["app"].toObject()), nk(0), limited(false) {
		QByteArray a, d;
		foreach (const QJsonValue &v, s["servers"].toArray()) {
			if (v.toString() == "down") {
				int fd = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0); sockaddr_in x; memset(&x, 0, sizeof x); x.sin_family = AF_INET; x.sin_addr.s_addr = htonl(0x7f000001u);
				if (bind(fd, (sockaddr *)&x, sizeof x)) { perror("bind"); exit(2); }
				socklen_t n = sizeof x; getsockname(fd, (sockaddr *)&x, &n); holes << fd; servers << 0; auth << "127.0.0.1:" + QByteArray::number(ntohs(x.sin_port));
				if (!d.isEmpty()) d += ","; d += jnum(servers.size());
			} else {
				HttpServer *h = new HttpServer(QHostAddress::LocalHost, 0); if (!h->isListening()) { fprintf(stderr, "cannot listen\n"); exit(2); }
				connect(h, SIGNAL(requestReady(Pillow::HttpConnection *)), SLOT(ready(Pillow::HttpConnection *)));
				servers << h; auth << "127.0.0.1:" + QByteArray::number(h->serverPort());
			}
			if (!a.isEmpty()) a += ","; a += rle(auth.last());
		}
		QJsonArray cs = s["clients"].toArray();
		t.event("srv", kv("clients", jnum(cs.size())) + "," + kv("a", "[" + a + "]") + "," + kv("down", "[" + d + "]"));
		foreach (const QJsonValue &v, s["codings"].toArray()) t.event("coding", kv("raw", rle(unrle(v.toObject()["raw"]))) + "," + kv("plain", rle(unrle(v.toObject()["plain"]))));
		for (int i = 0; i < cs.size(); ++i) users << new User(this, i + 1, cs[i].toObject());
	}
	~World() {
		qDeleteAll(users); foreach (HttpConnection *c, ks.keys()) disconnect(c, 0, this, 0);
		foreach (HttpServer *h, servers) delete h; foreach (int fd, holes) ::close(fd);
	}
	QByteArray subst(QByteArray d) { if (d.contains('@')) for (int k = 0; k < auth.size(); ++k) d.replace("@" + QByteArray::number(k + 1) + "@", auth[k]); return d; }
	HttpHeaderCollection subst(HttpHeaderCollection h) { for (int i = 0; i < h.size(); ++i) h[i].second = subst(h[i].second); return h; }

	QList<QAbstractSocket *> sockets() {
		QList<QAbstractSocket *> l;
		foreach (User *u, users) l << u->c->findChildren<QAbstractSocket *>();
		foreach (HttpServer *h, servers) if (h) l << h->findChildren<QAbstractSocket *>();
		return l;
	}
	void settle() {
		settleLoop([this]() { foreach (QAbstractSocket *s, sockets()) { int one = 1; if (s->socketDescriptor() >= 0) { setsockopt(int(s->socketDescriptor()), IPPROTO_TCP, TCP_NODELAY, &one, sizeof one); setsockopt(int(s->socketDescriptor()), IPPROTO_TCP, TCP_QUICKACK, &one, sizeof one); } } return false; },
			[this]() {
				foreach (QAbstractSocket *s, sockets()) if (s->state() == QAbstractSocket::ConnectingState || s->state() == QAbstractSocket::HostLookupState) return true;
				if (limited) return false;
				QList<QObject *> roots; foreach (QAbstractSocket *s, sockets()) roots << s;
				return unsent(roots);
			});
	}
	void idle() {
		settle();
		QByteArray p; foreach (User *u, users) if (u->c->responsePending()) { if (!p.isEmpty()) p += ","; p += jnum(u->id); }
		t.event("idle", kv("pend", "[" + p + "]"));
	}

	// ---- the application behind the servers
	QByteArray kk(HttpConnection *c) {
		if (!ks.contains(c)) {
			ks[c] = ++nk;
			connect(c, SIGNAL(requestCompleted(Pillow::HttpConnection *)), this, SLOT(completed(Pillow::HttpConnection *)));
			connect(c, SIGNAL(closed(Pillow::HttpConnection *)), this, SLOT(closed(Pillow::HttpConnection *)));
			connect(c, SIGNAL(destroyed(QObject *)), this, SLOT(destroyed(QObject *)));
		}
		return kv("k", jnum(ks[c]));
	}
	void doCalls(HttpConnection *c, const QJsonArray &ops) {
		const int mine = readies.value(c);
		foreach (const QJsonValue &v, ops) {
			if (readies.value(c) != mine || !outstanding.contains(c)) break;      // its request is over
			QJsonObject o = v.toObject(); QString k = o["op"].toString(); QByteArray a = kk(c) + "," + kv("op", jstr(k.toLatin1())); HttpHeaderCollection h = subst(hdrs(o["h"]));
			if (k == "wr" || k == "ws") a += "," + kv("s", jnum(qint64(o["s"].toDouble()))) + "," + kv("h", hdrsJson(h)) + "," + kv("c", rle(unrle(o["c"])));
			else if (k == "wh") a += "," + kv("s", jnum(qint64(o["s"].toDouble()))) + "," + kv("h", hdrsJson(h));
			else if (k == "wc") a += "," + kv("c", rle(unrle(o["c"])));
			t.event("acall", a);
			if (k == "wr") c->writeResponse(o["s"].toInt(), h, unrle(o["c"]));
			else if (k == "ws") c->writeResponseString(o["s"].toInt(), h, QString::fromUtf8(unrle(o["c"])));
			else if (k == "wh") c->writeHeaders(o["s"].toInt(), h);
			else if (k == "wc") c->writeContent(unrle(o["c"]));
			else if (k == "ec") c->endContent();
			else if (k == "flush") c->flush();
			else if (k == "close") c->close();
			else { fprintf(stderr, "bad call %s\n", qPrintable(k)); exit(2); }
			t.event("aret", kv("k", jnum(ks.value(c))));
		}
	}
	void doOp(const QJsonObject &o) {
		const QString k = o["op"].toString();
		if (k == "idle") idle();
		else if (k == "late") { QByteArray u = o["u"].toString().toLatin1(); HttpConnection *c = outstanding.key(u, 0); if (c) doCalls(c, o["ops"].toArray()); }
		else users[o["cl"].toInt() - 1]->doOp(o);
	}
	void doOps(const QJsonArray &ops) { foreach (const QJsonValue &o, ops) doOp(o.toObject()); }
public slots:
	void ready(Pillow::HttpConnection *c) {
		outstanding[c] = c->requestUri(); ++readies[c];
		t.event("ready", kk(c) + "," + kv("m", rle(c->requestMethod())) + "," + kv("u", rle(c->requestUri())) + "," + kv("p", rle(c->requestPath())) + ","
			+ kv("q", rle(c->requestQueryString())) + "," + kv("f", rle(c->requestFragment())) + "," + kv("v", rle(c->requestHttpVersion())) + ","
			+ kv("h", hdrsJson(c->requestHeaders())) + "," + kv("c", rle(c->requestContent())));
		doCalls(c, app[QString::fromLatin1(c->requestUri())].toArray());
	}
	void completed(Pillow::HttpConnection *c) { outstanding.remove(c); t.event("completed", kk(c) + "," + kv("code", jnum(c->responseStatusCode())) + "," + kv("len", jnum(c->responseContentLength()))); t.event("endcompleted", kk(c)); }
	void closed(Pillow::HttpConnection *c) { outstanding.remove(c); t.event("closed", kk(c) + "," + kv("left", jnum(0))); }
	void destroyed(QObject *o) { HttpConnection *c = static_cast<HttpConnection *>(o); ks.remove(c); outstanding.remove(c); }
};

User::User(World *w, int id, const QJsonObject &script) : w(w), c(new HttpClient), id(id), nHeaders(0), nData(0), nFinished(0), script(script), failed(false) {
	connect(c, SIGNAL(headersCompleted()), SLOT(headers()));
	connect(c, SIGNAL(contentReadyRead()), SLOT(data()));
	connect(c, SIGNAL(finished()), SLOT(finished()));
}
void User::doOp(const QJsonObject &o) {
	const QString k = o["op"].toString(); Trace &t = w->t;
	if (k == "req") {
		QByteArray m = unrle(o["m"]), tg = unrle(o["t"]), d = unrle(o["d"]); HttpHeaderCollection h = hdrs(o["h"]); int s = o["s"].toInt();
		t.event("call", me() + "," + kv("op", jstr("req")) + "," + kv("m", rle(m)) + "," + kv("s", jnum(s + 1)) + "," + kv("t", rle(tg)) + "," + kv("h", hdrsJson(h)) + "," + kv("d", rle(d)));
		c->request(m, QUrl::fromEncoded("http://" + w->auth[s] + tg), h, d);
		t.event("ret", me());
	} else if (k == "abort") { t.event("call", me() + "," + kv("op", jstr("abort"))); c->abort(); t.event("ret", me());
	} else if (k == "follow") {
		if (c->error() != HttpClient::NoError && !c->responsePending()) return;   // unspecified after a failure
		t.event("call", me() + "," + kv("op", jstr("follow"))); c->followRedirection(); t.event("ret", me());
	} else if (k == "timeout") { c->setKeepAliveTimeout(o["n"].toInt()); t.event("call", me() + "," + kv("op", jstr("timeout")) + "," + kv("n", jnum(o["n"].toInt())));
	} else if (k == "limit") { c->setReadBufferSize(o["n"].toInt()); w->limited = true; t.event("call", me() + "," + kv("op", jstr("limit")) + "," + kv("n", jnum(o["n"].toInt())));
	} else if (k == "consume") { QByteArray d = c->consumeContent(); t.event("consume", me() + "," + kv("c", rle(d)));
	} else { fprintf(stderr, "unknown op %s\n", qPrintable(k)); exit(2); }
}
void User::handler(const char *name, int n) {
	QJsonArray l = script[name].toArray(), ops;
	if (n < l.size()) ops = l[n].toArray(); else if (!l.isEmpty() && script["repeat"].toBool()) ops = l.last().toArray();
	foreach (const QJsonValue &o, ops) doOp(o.toObject());
	w->t.event("endnote", me());
}
void User::headers() { w->t.event("headers", resp()); handler("onHeaders", nHeaders++); }
void User::data() { w->t.event("data", me() + "," + kv("c", rle(c->content()))); handler("onData", nData++); }
void User::finished() { w->t.event("finished", kv("err", jnum(int(c->error()))) + "," + resp()); handler("onFinished", nFinished++); }

int main(int argc, char **argv) {
	QCoreApplication app(argc, argv);
	return runScripts(argc, argv, [](const QJsonObject &s) {
		World *x = new World(s);
		x->doOps(s["ops"].toArray());
		x->idle();
		QByteArray r = "{\"id\":" + jnum(qint64(s["id"].toDouble())) + ",\"ev\":[" + x->t.ev + "]}";
		delete x;
		return r;
	});
}
#include "e2e_driver.moc"
