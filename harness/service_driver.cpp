// Drives a server (TCP, local, TLS or in-memory) with any number of clients and a tree of handlers
// and records everything the clients and the application observe.
#include "common.h"
#include "servers.h"
#include "HttpServer.h"
#include "HttpsServer.h"
#include "HttpConnection.h"
#include "HttpHandler.h"
#include "HttpHandlerSimpleRouter.h"
#include "HttpHeader.h"
#include <QtNetwork/QLocalSocket>
#include <QtNetwork/QSslSocket>
#include <QtNetwork/QSslKey>
#include <sys/un.h>
#include <sys/stat.h>
using namespace Pillow;

// An in-memory device whose output leaves when it is drained.
class MemDevice : public QIODevice {
public:
	QByteArray in, held, gone; bool hold; qint64 before, peak;
	MemDevice(bool hold) : hold(hold), before(0), peak(0) { open(QIODevice::ReadWrite | QIODevice::Unbuffered); }
	bool isSequential() const { return true; }
	qint64 bytesAvailable() const { return in.size() - inPos + QIODevice::bytesAvailable(); }
	qint64 bytesToWrite() const { return held.size(); }
	void feed(const QByteArray &d) { if (!isOpen()) return; in.append(d); emit readyRead(); }
	void drain(qint64 n) { if (n > held.size()) n = held.size(); if (n <= 0) return; gone.append(held.left(int(n))); held.remove(0, int(n)); if (isOpen()) emit bytesWritten(n); }
	void close() { gone.append(held); held.clear(); QIODevice::close(); }
protected:
	int inPos = 0; // read up to here
	qint64 readData(char *d, qint64 n) { n = qMin(n, qint64(in.size() - inPos)); memcpy(d, in.constData() + inPos, size_t(n)); inPos += int(n); if (inPos == in.size()) { in.clear(); inPos = 0; } return n; }
	qint64 writeData(const char *d, qint64 n) { held.append(d, int(n)); peak = qMax(peak, qint64(held.size())); return n; }
};

struct Client {
	int fd; QSslSocket *ssl; MemDevice *in, *out; bool mute, eof, left; QByteArray all;
	Client() : fd(-1), ssl(0), in(0), out(0), mute(false), eof(false), left(false) {}
};

class World;
class Probe : public HttpHandler {
	Q_OBJECT
public:
	World *w; QString id; bool acc;
	Probe(World *w, const QString &id, bool acc, QObject *parent) : HttpHandler(parent), w(w), id(id), acc(acc) {}
	bool offered(HttpConnection *c);
public slots:
	bool handleRequest(Pillow::HttpConnection *c) { return offered(c); }
	void take(Pillow::HttpConnection *c) { offered(c); }
public:
	Q_INVOKABLE void grab(Pillow::HttpConnection *c) { offered(c); }
};

class LogDevice : public QIODevice {
public:
	Trace *t; int n; QByteArray part;
	LogDevice(Trace *t, int n, QObject *p) : QIODevice(p), t(t), n(n) { open(QIODevice::ReadWrite | QIODevice::Unbuffered); }
protected:
	qint64 readData(char *, qint64) { return 0; }
	qint64 writeData(const char *d, qint64 len) {
		part.append(d, int(len));
		for (int i; (i = part.indexOf('\n')) >= 0; part.remove(0, i + 1)) t->event("log", kv("n", jnum(n)) + "," + kv("d", rle(part.left(i))));
		return len;
	}
};

class World : public QObject {
	Q_OBJECT
public:
	Trace t; QJsonObject script; QString transport; QObject *server; HttpHandler *root; QObject *holder; QString dir;
	QList<Client> cl; QHash<HttpConnection *, int> ks; QHash<HttpConnection *, QByteArray> outstanding; int nk;
	QHash<QString, QPointer<Probe> > probes; QList<HttpConnection *> pool; QList<QObject *> trash; QJsonObject app; QByteArray lastTag; bool hold;
	QByteArray address; sockaddr_storage sa; socklen_t salen;

	World(const QJsonObject &s) : script(s), server(0), root(0), holder(new QObject), nk(0), salen(0) {
		transport = s["transport"].toString(); hold = s["hold"].toBool(); app = s["app"].toObject();
		char tmpl[] = "fs-XXXXXX"; dir = QDir::currentPath() + "/" + QString::fromLatin1(mkdtemp(tmpl));
		t.event("cfg", kv("tree", QJsonDocument(s["tree"].toObject()).toJson(QJsonDocument::Compact)) + "," + kv("logs", QJsonDocument(s["logs"].toArray()).toJson(QJsonDocument::Compact)));
		foreach (const QJsonValue &f, s["fs"].toArray()) fsop(f.toObject());
		memset(&sa, 0, sizeof sa);
		if (transport == "tcp" || transport == "tls") {
			HttpServer *h;
			if (transport == "tcp") h = new HttpServer(QHostAddress::LocalHost, 0);
			else {
				QFile c(QString(HARNESS) + "/test.crt"), k(QString(HARNESS) + "/test.key"); c.open(QIODevice::ReadOnly); k.open(QIODevice::ReadOnly);
				h = new HttpsServer(QSslCertificate(&c), QSslKey(&k, QSsl::Rsa), QHostAddress::LocalHost, 0);
			}
			server = h; sockaddr_in *a = (sockaddr_in *)&sa; a->sin_family = AF_INET; a->sin_addr.s_addr = htonl(0x7f000001u); a->sin_port = htons(h->serverPort()); salen = sizeof *a;
			if (!h->isListening()) { fprintf(stderr, "cannot listen\n"); exit(2); }
		} else if (transport == "local") {
			QString name = dir + ".sock"; HttpLocalServer *h = new HttpLocalServer(name); server = h;
			if (!h->isListening()) { fprintf(stderr, "cannot listen on %s: %s\n", qPrintable(name), qPrintable(h->errorString())); exit(2); }
			sockaddr_un *a = (sockaddr_un *)&sa; a->sun_family = AF_UNIX; qstrncpy(a->sun_path, h->fullServerName().toLocal8Bit().constData(), sizeof a->sun_path); salen = sizeof *a;
		}
		if (server) connect(server, SIGNAL(requestReady(Pillow::HttpConnection *)), SLOT(ready(Pillow::HttpConnection *)));
		root = build(s["tree"].toObject(), holder);
	}
	~World() {
		foreach (HttpConnection *c, ks.keys()) disconnect(c, 0, this, 0);
		foreach (const Client &c, cl) { if (c.fd >= 0) ::close(c.fd); if (c.ssl) { disconnect(c.ssl, 0, this, 0); delete c.ssl; } }
		delete server; qDeleteAll(pool); foreach (HttpConnection *c, live) delete c;
		delete holder; qDeleteAll(trash);
		if (!dir.isEmpty()) { QDir(dir).removeRecursively(); QFile::remove(dir + ".sock"); }
	}
	QSet<HttpConnection *> live;

	// ---- files
	static QByteArray fsname(const QJsonArray &p) { QByteArray o; foreach (const QJsonValue &x, p) o += "/" + unrle(x); return o; }
	void fsop(const QJsonObject &o) {
		QJsonObject n = o["n"].toObject(); QString k = n["t"].toString(); QByteArray path = QFile::encodeName(dir) + fsname(o["p"].toArray());
		t.event("fs", kv("p", QJsonDocument(o["p"].toArray()).toJson(QJsonDocument::Compact)) + "," + kv("n", QJsonDocument(n).toJson(QJsonDocument::Compact)));
		if (k == "d") mkdir(path.constData(), 0755);
		else if (k == "f") { QByteArray c = unrle(n["c"]); unlink(path.constData()); FILE *f = fopen(path.constData(), "w"); if (!f) { perror(path.constData()); exit(2); } fwrite(c.constData(), 1, c.size(), f); fclose(f); }
		else if (k == "l") { QByteArray to = unrle(n["to"]); if (to.startsWith('/')) to = QFile::encodeName(dir) + to; unlink(path.constData()); if (symlink(to.constData(), path.constData())) { perror("symlink"); exit(2); } }
		else if (k == "p") mkfifo(path.constData(), 0644);
		else if (k == "x") { if (!path.startsWith(QFile::encodeName(dir) + "/")) exit(2); struct stat st; if (!lstat(path.constData(), &st)) { if (S_ISDIR(st.st_mode)) QDir(QFile::decodeName(path)).removeRecursively(); else unlink(path.constData()); } }
	}

	// ---- handlers
	HttpHandler *build(const QJsonObject &n, QObject *parent) {
		QString k = n["t"].toString();
		if (k == "probe") {
			Probe *p = new Probe(this, n["id"].toString(), n["acc"].toBool(), parent); probes[p->id] = p;
			if (n["kind"].toString() == "fn") { p->setParent(holder); return new HttpHandlerFunction([p](HttpConnection *c) { p->offered(c); }, parent); }
			return p;
		}
		if (k == "none") return new HttpHandlerFunction(parent);
		if (k == "fixed") { if (n["set"].toBool()) { HttpHandlerFixed *f = new HttpHandlerFixed(200, "x", parent); f->setStatusCode(n["s"].toInt()); f->setContent(unrle(n["c"])); return f; } return new HttpHandlerFixed(n["s"].toInt(), unrle(n["c"]), parent); }
		if (k == "404") return new HttpHandler404(parent);
		if (k == "log") {
			bool trace = script["logs"].toArray()[n["n"].toInt() - 1].toString() == "trace"; LogDevice *d = new LogDevice(&t, n["n"].toInt(), holder);
			if (n["set"].toBool()) { HttpHandlerLog *l = new HttpHandlerLog(parent); l->setMode(trace ? HttpHandlerLog::TraceRequests : HttpHandlerLog::LogCompletedRequests); l->setDevice(d); return l; }
			return new HttpHandlerLog(trace ? HttpHandlerLog::TraceRequests : HttpHandlerLog::LogCompletedRequests, d, parent);
		}
		if (k == "file") {
			QByteArray r = unrle(n["root"]); HttpHandlerFile *f = new HttpHandlerFile(r.isEmpty() ? QString() : dir + QFile::decodeName(r), parent);
			if (n["buf"].toInt()) f->setBufferSize(n["buf"].toInt()); return f;
		}
		if (k == "stack") { HttpHandlerStack *s = new HttpHandlerStack(parent); foreach (const QJsonValue &x, n["kids"].toArray()) { new QObject(s); build(x.toObject(), s); } return s; }
		if (k == "router") {
			HttpHandlerSimpleRouter *r = new HttpHandlerSimpleRouter(parent);
			r->setAcceptsMethodParam(n["mp"].toBool());
			r->setMethodMismatchAction(n["mm"].toBool() ? HttpHandlerSimpleRouter::Return4xxResponse : HttpHandlerSimpleRouter::Passthrough);
			r->setUnmatchedRequestAction(n["un"].toBool() ? HttpHandlerSimpleRouter::Return4xxResponse : HttpHandlerSimpleRouter::Passthrough);
			foreach (const QJsonValue &v, n["routes"].toArray()) {
				QJsonObject o = v.toObject(), to = o["to"].toObject(); QByteArray m = unrle(o["m"]); QString path = QString::fromUtf8(unrle(o["path"])); QString kind = o["kind"].toString();
				if (kind == "static") r->addRoute(m, path, to["s"].toInt(), headers(to["h"]), unrle(to["c"]));
				else if (kind == "handler") r->addRoute(m, path, build(to, holder));
				else {
					Probe *p = 0; if (to["t"].toString() == "probe") { p = new Probe(this, to["id"].toString(), true, holder); probes[p->id] = p; }
					if (kind == "slot") r->addRoute(m, path, p, SLOT(take(Pillow::HttpConnection*)));
					else if (kind == "invokable") r->addRoute(m, path, p, "grab(Pillow::HttpConnection*)");
					else if (kind == "name") r->addRoute(m, path, p, "take");
					else if (kind == "badname") r->addRoute(m, path, holder, "nothingLikeThis");
					else if (kind == "func") r->addRoute(m, path, [p](HttpConnection *c) { p->offered(c); });
					else { fprintf(stderr, "bad route kind\n"); exit(2); }
				}
			}
			return r;
		}
		fprintf(stderr, "bad handler %s\n", qPrintable(k)); exit(2);
	}

	// ---- recording
	static HttpHeaderCollection headers(const QJsonValue &v) { HttpHeaderCollection h; foreach (const QJsonValue &e, v.toArray()) { QJsonArray p = e.toArray(); h << HttpHeader(unrle(p[0]), unrle(p[1])); } return h; }
	static QByteArray headersJson(const HttpHeaderCollection &h) { QByteArray o("["); for (int i = 0; i < h.size(); ++i) { if (i) o.append(','); o.append('[').append(rle(h.at(i).first)).append(',').append(rle(h.at(i).second)).append(']'); } return o.append(']'); }
	static QByteArray params(HttpConnection *c) { QByteArray o("["); const HttpParamCollection &p = c->requestParams(); for (int i = 0; i < p.size(); ++i) { if (i) o.append(','); o.append('[').append(rle(p.at(i).first)).append(',').append(rle(p.at(i).second)).append(']'); } return o.append(']'); }
	QByteArray kk(HttpConnection *c) {
		if (!ks.contains(c)) {
			ks[c] = ++nk;
			connect(c, SIGNAL(requestCompleted(Pillow::HttpConnection *)), this, SLOT(completed(Pillow::HttpConnection *)));
			connect(c, SIGNAL(closed(Pillow::HttpConnection *)), this, SLOT(closed(Pillow::HttpConnection *)));
			connect(c, SIGNAL(destroyed(QObject *)), this, SLOT(destroyed(QObject *)));
		}
		return kv("k", jnum(ks[c]));
	}
	QMap<HttpConnection *, int> readies;
	void doCalls(HttpConnection *c, const QJsonArray &ops) {
		const int mine = readies.value(c);
		foreach (const QJsonValue &v, ops) {
			if (readies.value(c) != mine) break;      // its request is over and the next one already begun
			QJsonObject o = v.toObject(); QString k = o["op"].toString(); QByteArray a = kk(c) + "," + kv("op", jstr(k.toLatin1()));
			if (k == "wr" || k == "ws") a += "," + kv("s", jnum(qint64(o["s"].toDouble()))) + "," + kv("h", headersJson(headers(o["h"]))) + "," + kv("c", rle(unrle(o["c"])));
			else if (k == "wh") a += "," + kv("s", jnum(qint64(o["s"].toDouble()))) + "," + kv("h", headersJson(headers(o["h"])));
			else if (k == "wc") a += "," + kv("c", rle(unrle(o["c"])));
			t.event("call", a);
			if (k == "wr") c->writeResponse(o["s"].toInt(), headers(o["h"]), unrle(o["c"]));
			else if (k == "ws") c->writeResponseString(o["s"].toInt(), headers(o["h"]), QString::fromUtf8(unrle(o["c"])));
			else if (k == "wh") c->writeHeaders(o["s"].toInt(), headers(o["h"]));
			else if (k == "wc") c->writeContent(unrle(o["c"]));
			else if (k == "ec") c->endContent();
			else if (k == "flush") c->flush();
			else if (k == "close") c->close();
			else { fprintf(stderr, "bad call %s\n", qPrintable(k)); exit(2); }
			t.event("ret", kk(c));
		}
	}
	QJsonArray answer(HttpConnection *c, const QString &id) {
		QString u = QString::fromLatin1(c->requestUri());
		if (app.contains(u)) return app[u].toArray();
		QJsonObject o; o["op"] = "wr"; o["s"] = 200;
		QByteArray js = "[[[344,301,336,367,354,355,357],[" + QByteArray() + "]]]"; Q_UNUSED(js);
		QJsonDocument h = QJsonDocument::fromJson("[[" + rle(QByteArray("X-Probe")) + "," + rle(id) + "]]"), b = QJsonDocument::fromJson(rle(c->requestUri() + " " + c->requestContent()));
		o["h"] = h.array(); o["c"] = b.array();
		QJsonArray a; a << o; return a;
	}

	// ---- clients
	void note(int i, const QByteArray &d) {
		if (d.isEmpty()) return;
		Client &c = cl[i]; c.all += d;
		t.event("recv", kv("c", jnum(i + 1)) + "," + kv("d", rle(d)));
		int p = c.all.toLower().lastIndexOf("\r\netag:"); if (p >= 0) { int e = c.all.indexOf("\r\n", p + 2); if (e > 0) lastTag = c.all.mid(p + 7, e - p - 7).trimmed(); if (c.all.size() > 100000) c.all = c.all.right(2000); }
	}
	void eof(int i) { if (cl[i].eof) return; cl[i].eof = true; t.event("eof", kv("c", jnum(i + 1))); }
	bool pollOnce() {
		bool any = false;
		for (int i = 0; i < cl.size(); ++i) {
			Client &c = cl[i];
			if (c.out) {
				if (!hold && !c.out->held.isEmpty()) { c.out->drain(c.out->held.size()); any = true; }
				if (!c.out->gone.isEmpty()) { QByteArray d = c.out->gone; c.out->gone.clear(); if (!c.left) note(i, d); any = true; }
				if (!c.out->isOpen() && !c.eof) { eof(i); any = true; }
			} else if (c.ssl) {
				int one = 1; if (c.ssl->socketDescriptor() >= 0) setsockopt(int(c.ssl->socketDescriptor()), IPPROTO_TCP, TCP_QUICKACK, &one, sizeof one);
				QByteArray d = c.ssl->readAll(); if (!d.isEmpty()) { any = true; note(i, d); }
				if (c.ssl->state() == QAbstractSocket::UnconnectedState && !c.eof) { if (!c.left) eof(i); c.eof = true; }
			} else if (c.fd >= 0 && !c.mute && !c.eof) {
				QByteArray got;
				for (;;) {
					char b[65536]; ssize_t n = ::recv(c.fd, b, sizeof b, 0);
					if (n > 0) { got.append(b, int(n)); any = true; int one = 1; if (transport == "tcp") setsockopt(c.fd, IPPROTO_TCP, TCP_QUICKACK, &one, sizeof one); continue; }
					bool end = n == 0 || (errno != EAGAIN && errno != EWOULDBLOCK && errno != EINTR);
					note(i, got); if (end) { eof(i); any = true; }
					break;
				}
			}
		}
		return any;
	}
	bool busy() {
		QList<QObject *> roots; if (server) roots << server;
		foreach (const Client &c, cl) if (c.ssl && !c.eof) { roots << c.ssl; if (c.ssl->encryptedBytesToWrite() || c.ssl->bytesToWrite()) return true; }
		if (server) { foreach (QLocalSocket *l, server->findChildren<QLocalSocket *>()) if (l->bytesToWrite() > 0) return true;
			foreach (QSslSocket *l, server->findChildren<QSslSocket *>()) if (l->encryptedBytesToWrite() > 0) return true; }
		return unsent(roots);
	}
	void settle() { settleLoop([this]() { return pollOnce(); }, [this]() { return busy(); }); }
	void idle() {
		for (int i = 0; i < cl.size(); ++i) if (cl[i].out) { cl[i].out->before = cl[i].out->peak = cl[i].out->held.size(); }
		step();
	}
	void step() {
		settle();
		QByteArray b, q;
		for (int i = 0; i < cl.size(); ++i) {
			Client &c = cl[i];
			if ((c.out && !c.out->held.isEmpty()) || c.mute) { if (!b.isEmpty()) b += ","; b += jnum(i + 1); }
			if (c.out && hold && !c.left) { if (!q.isEmpty()) q += ","; q += "[" + jnum(i + 1) + "," + jnum(c.out->before) + "," + jnum(c.out->peak) + "]"; c.out->before = c.out->peak = c.out->held.size(); }
		}
		t.event("idle", kv("busy", "[" + b + "]") + "," + kv("q", "[" + q + "]"));
	}
	void doOp(const QJsonObject &o) {
		const QString k = o["op"].toString(); int i = o["c"].toInt() - 1;
		if (k == "open") {
			Client c; t.event("open", kv("c", jnum(cl.size() + 1)));
			if (transport == "mem" || transport == "mem2") {
				c.in = new MemDevice(hold); c.out = transport == "mem2" ? new MemDevice(hold) : c.in; trash << c.in; if (c.out != c.in) trash << c.out;
				HttpConnection *h; if (pool.isEmpty()) { h = new HttpConnection; connect(h, SIGNAL(requestReady(Pillow::HttpConnection *)), SLOT(ready(Pillow::HttpConnection *))); connect(h, SIGNAL(closed(Pillow::HttpConnection *)), SLOT(recycle(Pillow::HttpConnection *))); } else h = pool.takeLast();
				live << h; cl << c; h->initialize(c.in, c.out);
			} else if (transport == "tls") {
				c.ssl = new QSslSocket; c.ssl->setPeerVerifyMode(QSslSocket::VerifyNone); c.ssl->setReadBufferSize(0);
				c.ssl->connectToHostEncrypted("127.0.0.1", ntohs(((sockaddr_in *)&sa)->sin_port)); cl << c;
				QElapsedTimer e; e.start(); while (!c.ssl->isEncrypted() && e.elapsed() < 5000) QCoreApplication::processEvents(QEventLoop::AllEvents, 5);
				c.ssl->setSocketOption(QAbstractSocket::LowDelayOption, 1);
				if (!c.ssl->isEncrypted()) { fprintf(stderr, "no TLS connection: %s\n", qPrintable(c.ssl->errorString())); exit(2); }
			} else {
				c.fd = socket(sa.ss_family, SOCK_STREAM | SOCK_CLOEXEC, 0);
				if (::connect(c.fd, (sockaddr *)&sa, salen)) { perror("connect"); exit(2); }
				Servers::nonblock(c.fd); int one = 1; if (transport == "tcp") setsockopt(c.fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
				cl << c;
			}
		} else if (k == "send") {
			QByteArray d = unrle(o["d"]);
			if (d.contains("@TAG")) { // Nearly the tag: without its end or beginning, or one character off.
				QByteArray off = lastTag; if (!off.isEmpty()) { const int at = off.size() / 2; off[at] = off[at] == '0' ? '1' : '0'; }
				d.replace("@TAG-END@", lastTag.left(lastTag.size() - 1)); d.replace("@TAG-HALF@", lastTag.left(lastTag.size() / 2)); d.replace("@TAG-START@", lastTag.mid(1)); d.replace("@TAG-OFF@", off);
				d.replace("@TAG-UPPER@", lastTag.toUpper());
			}
			d.replace("@ETAG@", lastTag);
			t.event("arrive", kv("c", jnum(i + 1)) + "," + kv("d", rle(d)));
			if (cl[i].in) cl[i].in->feed(d);
			else if (cl[i].ssl) { cl[i].ssl->write(d); cl[i].ssl->flush(); }
			else if (cl[i].fd >= 0) {
				int off = 0; QElapsedTimer e; e.start();
				while (off < d.size() && e.elapsed() < 5000) { ssize_t n = ::send(cl[i].fd, d.constData() + off, d.size() - off, MSG_NOSIGNAL); if (n > 0) off += int(n); else if (errno == EAGAIN) { QCoreApplication::processEvents(); pollOnce(); } else break; }
			}
		} else if (k == "fin" || k == "rst" || k == "half") {
			Client &c = cl[i]; if (c.left) return;
			bool half = k == "half" && c.fd >= 0; c.left = true;
			t.event("peer", kv("c", jnum(i + 1)) + "," + kv("how", jstr(half ? "half" : "gone")));
			if (c.in) { c.in->close(); }
			else if (c.ssl) { if (k == "rst") c.ssl->abort(); else c.ssl->disconnectFromHost(); }
			else if (half) { shutdown(c.fd, SHUT_WR); c.mute = false; }
			else { if (k == "rst") { linger l = { 1, 0 }; setsockopt(c.fd, SOL_SOCKET, SO_LINGER, &l, sizeof l); } ::close(c.fd); c.fd = -1; c.mute = false; }
		} else if (k == "mute") { if (!cl[i].left) cl[i].mute = true;
		} else if (k == "unmute") { cl[i].mute = false;
		} else if (k == "idle") { idle();
		} else if (k == "drain") { if (cl[i].out) { t.event("drain"); for (int j = 0; j < cl.size(); ++j) if (cl[j].out) cl[j].out->before = cl[j].out->peak = cl[j].out->held.size(); cl[i].out->drain(qint64(o["n"].toDouble())); cl[i].out->before = cl[i].out->peak = cl[i].out->held.size(); step(); }
		} else if (k == "drainall") {
			while (cl[i].out && !cl[i].out->held.isEmpty()) { cl[i].out->drain(qint64(o["n"].toDouble())); cl[i].out->before = cl[i].out->peak = cl[i].out->held.size(); step(); }
		} else if (k == "late") {
			QByteArray u = o["u"].toString().toLatin1(); HttpConnection *c = outstanding.key(u, 0);
			if (c) doCalls(c, o["ops"].toArray());
		} else if (k == "fs") { fsop(o);
		} else if (k == "kill") {
			Probe *p = probes.value(o["id"].toString()); if (!p) return;
			t.event("kill", kv("id", jstr(o["id"].toString().toLatin1()))); delete p;
		} else { fprintf(stderr, "bad op %s\n", qPrintable(k)); exit(2); }
	}
	void doOps(const QJsonArray &ops) { foreach (const QJsonValue &o, ops) doOp(o.toObject()); }
public slots:
	void ready(Pillow::HttpConnection *c) {
		outstanding[c] = c->requestUri();
		++readies[c];
		t.event("ready", kk(c) + "," + kv("m", rle(c->requestMethod())) + "," + kv("u", rle(c->requestUri())) + "," + kv("p", rle(c->requestPath())) + ","
			+ kv("q", rle(c->requestQueryString())) + "," + kv("f", rle(c->requestFragment())) + "," + kv("v", rle(c->requestHttpVersion())) + ","
			+ kv("h", headersJson(c->requestHeaders())) + "," + kv("c", rle(c->requestContent())) + "," + kv("ps", params(c)));
		bool r = root->handleRequest(c);
		t.event("handled", kk(c) + "," + kv("ret", jbool(r)));
		if (!r) {
			QJsonObject o; o["op"] = "wr"; o["s"] = 404; o["h"] = QJsonArray(); o["c"] = QJsonDocument::fromJson(rle(QByteArray("nobody"))).array();
			QJsonArray a; a << o; doCalls(c, a);
		}
	}
	void completed(Pillow::HttpConnection *c) { t.event("completed", kk(c) + "," + kv("code", jnum(c->responseStatusCode())) + "," + kv("len", jnum(c->responseContentLength()))); outstanding.remove(c); t.event("endcompleted", kk(c)); }
	void closed(Pillow::HttpConnection *c) { outstanding.remove(c); t.event("closed", kk(c)); }
	void destroyed(QObject *o) { HttpConnection *c = static_cast<HttpConnection *>(o); ks.remove(c); outstanding.remove(c); }
	void recycle(Pillow::HttpConnection *c) { live.remove(c); pool << c; }
};

bool Probe::offered(HttpConnection *c) {
	w->t.event("offer", w->kk(c) + "," + kv("id", jstr(id.toLatin1())) + "," + kv("ps", World::params(c)));
	QByteArray k = w->kk(c); World *world = w; bool a = acc;
	if (acc) w->doCalls(c, w->answer(c, id));
	world->t.event("endoffer", k);
	return a;
}

int main(int argc, char **argv) {
	QCoreApplication app(argc, argv);
	return runScripts(argc, argv, [](const QJsonObject &s) {
		World *x = new World(s);
		x->doOps(s["ops"].toArray());
		x->idle();
		QByteArray r = "{\"id\":" + jnum(qint64(s["id"].toDouble())) + ",\"ev\":[" + x->t.ev + "]}";
		delete x;
		return r;
	});
}
#include "service_driver.moc"
