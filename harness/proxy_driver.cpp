// Clients in front of a Pillow::HttpServer whose requests a Pillow::HttpHandlerProxy passes on to a scripted upstream server.
// The sockets of the upstream side are served by a thread of Qt's own: the driver waits for what is due (or a deadline).
#include "servers.h"
#include "HttpServer.h"
#include "HttpConnection.h"
#include "HttpHandlerProxy.h"
using namespace Pillow;

// How far the first message in b is: >0 its size once complete, 0 not yet; body = its content so far.
static int messageEnd(const QByteArray &b, bool response, bool isHead, bool eof, int *body = 0) {
	int at = 0;
	for (;;) {
		int h = b.indexOf("\r\n\r\n", at); if (body) *body = 0;
		if (h < 0) return 0;
		QByteArray head = b.mid(at, h - at); h += 4;
		int code = response ? head.mid(head.indexOf(' ') + 1, 3).toInt() : 0;
		if (response && code / 100 == 1 && code != 101) { at = h; continue; }
		qint64 len = -1; bool chunked = false; QList<QByteArray> lines = head.split('\n');
		for (int i = 1; i < lines.size(); ++i) {
			int c = lines[i].indexOf(':'); QByteArray n = lines[i].left(c).toLower(), v = lines[i].mid(c + 1).trimmed();
			if (n == "content-length") len = v.toLongLong();
			if (n == "transfer-encoding" && v.toLower() == "chunked") chunked = true;
		}
		if (response && (isHead || code == 204 || code == 304)) return h;
		if (chunked) {
			int p = h, n = 0;
			for (;;) {
				int e = b.indexOf("\r\n", p); if (e < 0) { if (body) *body = n; return 0; }
				QByteArray sz = b.mid(p, e - p); if (sz.indexOf(';') >= 0) sz.truncate(sz.indexOf(';'));
				int k = sz.toInt(0, 16); p = e + 2;
				if (k == 0) { int z = b.mid(p, 2) == "\r\n" ? p + 2 : b.indexOf("\r\n\r\n", p) + 4; if (body) *body = n; return (b.mid(p, 2) == "\r\n" || z >= p + 4) ? z : 0; }
				n += qMin(k, b.size() - p); p += k + 2; if (p > b.size()) { if (body) *body = n; return 0; }
			}
		}
		if (len < 0 && !response) len = 0;
		if (body) *body = b.size() - h;
		if (len < 0) return eof ? b.size() : 0;
		return b.size() - h >= len ? int(h + len) : 0;
	}
}

struct Client { int fd; bool open, eof; QByteArray in; QList<bool> heads; int answers, body; };

static int overdue = 0;

class Session {
public:
	Trace t; HttpServer *server; HttpHandlerProxy *proxy; Servers sv; QList<Client> cl; QMap<int, int> carrier, count; QMap<int, QJsonObject> doom; QList<QByteArray> upin; bool any;
	Session(const QJsonObject &s) : any(false) {
		sv.add(s["down"].toBool());
		server = new HttpServer(QHostAddress(QHostAddress::LocalHost), 0);
		proxy = new HttpHandlerProxy(QUrl("http://" + QString(sv.auth[0])), server);
		QObject::connect(server, SIGNAL(requestReady(Pillow::HttpConnection*)), proxy, SLOT(handleRequest(Pillow::HttpConnection*)));
		t.event("cfg", kv("auth", rle(sv.auth[0])) + "," + kv("down", jbool(s["down"].toBool())));
	}
	~Session() { foreach (const Client &c, cl) if (c.fd >= 0) ::close(c.fd); delete server; for (int i = 0; i < 20; ++i) { QCoreApplication::processEvents(); QCoreApplication::sendPostedEvents(0, QEvent::DeferredDelete); } }
	QByteArray C(int c) { return kv("c", jnum(c + 1)); }
	QByteArray U(int u) { return kv("u", jnum(u + 1)); }
	// One round: everything that can be read is read and recorded.
	bool round() {
		any = false;
		QCoreApplication::sendPostedEvents(0, 0); QCoreApplication::sendPostedEvents(0, QEvent::DeferredDelete);
		if (QAbstractEventDispatcher::instance()->processEvents(QEventLoop::AllEvents)) any = true;
		if (sv.poll([this](int i) { upin << QByteArray(); t.event("uopen", U(i)); })) any = true;
		for (int i = 0; i < sv.peers.size(); ++i) {
			Peer &p = sv.peers[i];
			if (!p.in.isEmpty()) { t.event("urecv", U(i) + "," + kv("d", rle(p.in))); upin[i] += p.in; p.in.clear(); requests(i); }
			if (p.closed && !p.announced) { p.announced = true; t.event("uclosed", U(i)); }
		}
		for (int c = 0; c < cl.size(); ++c) {
			Client &k = cl[c]; if (k.fd < 0 || k.eof) continue;
			QByteArray got; bool gone = false;
			for (;;) { char b[65536]; ssize_t n = ::recv(k.fd, b, sizeof b, 0); if (n > 0) { got.append(b, int(n)); int one = 1; setsockopt(k.fd, IPPROTO_TCP, TCP_QUICKACK, &one, sizeof one); continue; } if (n == 0 || (errno != EAGAIN && errno != EWOULDBLOCK && errno != EINTR)) gone = true; break; }
			if (!got.isEmpty()) { any = true; t.event("crecv", C(c) + "," + kv("d", rle(got))); k.in += got; }
			if (gone) { any = true; k.eof = true; t.event("ceof", C(c)); }
			if (any) for (;;) { int e = messageEnd(k.in, true, !k.heads.isEmpty() && k.heads[0], k.eof, &k.body); if (e <= 0 || k.heads.isEmpty()) break; k.in.remove(0, e); k.heads.removeFirst(); ++k.answers; k.body = 0; }
		}
		return any;
	}
	void requests(int u) {
		for (;;) {
			int e = messageEnd(upin[u], false, false, false); if (e <= 0) return;
			QByteArray line = upin[u].left(upin[u].indexOf('\r')); int at = line.indexOf("/k"), n = at + 2; while (n < line.size() && isdigit(line[n])) ++n;
			int k = at < 0 ? -1 : line.mid(at + 2, n - at - 2).toInt(); upin[u].remove(0, e);
			carrier[k] = u; ++count[k];
			if (doom.contains(k)) {
				QByteArray d = unrle(doom[k]["d"]); QString how = doom[k]["how"].toString();
				if (!d.isEmpty() && sv.valid(u)) { t.event("usend", U(u) + "," + kv("d", rle(d))); ssize_t z = ::send(sv.peers[u].fd, d.constData(), d.size(), MSG_NOSIGNAL); (void)z; }
				if (how == "fin") fin(u); else if (how == "rst") rst(u);
			}
		}
	}
	void fin(int u) { if (!sv.valid(u)) return; t.event("ufin", U(u)); sv.fin(u); }
	void rst(int u) { if (!sv.valid(u)) return; t.event("urst", U(u)); sv.rst(u); }
	void await(const std::function<bool()> &due, int ms) { QElapsedTimer w; w.start(); while (!due()) { if (w.elapsed() > ms) { ++overdue; if (FILE *f = getenv("AWAIT_SHOW") ? fopen(getenv("AWAIT_SHOW"), "a") : NULL) { fprintf(f, "overdue in %s: %s\n", qPrintable(QJsonDocument(now).toJson(QJsonDocument::Compact)), t.ev.right(900).constData()); fclose(f); } return; } if (!round()) usleep(50); } }
	// A run that confirms a failure is more patient: the machine may just be slow.
	void quiet(int ms) { if (getenv("PATIENCE")) ms *= atoi(getenv("PATIENCE")); QElapsedTimer w, all; w.start(); all.start(); QList<QObject *> roots; roots << server; while (w.elapsed() < ms) { if (round() || (all.elapsed() < 200 && (unsent(roots) || sv.unacked()))) w.restart(); else usleep(50); } }
	bool valid(int c) { return c >= 0 && c < cl.size() && cl[c].fd >= 0; }
	QJsonObject now;
	void doOp(const QJsonObject &o) {
		now = o;
		const QString n = o["op"].toString(); int c = o["c"].toInt(), k = o["k"].toInt(); int u = carrier.value(k, -1);
		const int D = overdue > 1 ? 250 : getenv("AWAIT_MS") ? atoi(getenv("AWAIT_MS")) : 6000;      // a verdict is near: what fails here is run again alone
		if (n == "conn") {
			int fd = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0); sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(0x7f000001u); a.sin_port = htons(server->serverPort());
			if (::connect(fd, (sockaddr *)&a, sizeof a)) { perror("connect"); exit(2); }
			int one = 1; setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one); Servers::nonblock(fd);
			Client x = { fd, true, false, QByteArray(), QList<bool>(), 0, 0 }; cl << x; t.event("copen", C(cl.size() - 1)); round();
		} else if (n == "csend") {
			if (!valid(c) || cl[c].eof) return;
			QByteArray d = unrle(o["d"]); t.event("csend", C(c) + "," + kv("d", rle(d)));
			foreach (const QJsonValue &h, o["heads"].toArray()) cl[c].heads << h.toBool();
			int off = 0; QElapsedTimer w; w.start();
			while (off < d.size() && w.elapsed() < 5000) { ssize_t z = ::send(cl[c].fd, d.constData() + off, d.size() - off, MSG_NOSIGNAL); if (z > 0) off += int(z); else if (errno != EAGAIN && errno != EWOULDBLOCK) break; else { round(); usleep(50); } }
			round();
		} else if (n == "cfin") { if (valid(c)) { t.event("cfin", C(c)); shutdown(cl[c].fd, SHUT_WR); } }
		else if (n == "crst") { if (valid(c)) { t.event("crst", C(c)); linger l = { 1, 0 }; setsockopt(cl[c].fd, SOL_SOCKET, SO_LINGER, &l, sizeof l); ::close(cl[c].fd); cl[c].fd = -1; } }
		else if (n == "usend") {
			if (u < 0 || !sv.valid(u)) return;
			QByteArray d = unrle(o["d"]); t.event("usend", U(u) + "," + kv("d", rle(d)));
			int off = 0; QElapsedTimer w; w.start();
			while (off < d.size() && w.elapsed() < 5000) { ssize_t z = ::send(sv.peers[u].fd, d.constData() + off, d.size() - off, MSG_NOSIGNAL); if (z > 0) off += int(z); else if (errno != EAGAIN && errno != EWOULDBLOCK) break; else { round(); usleep(50); } }
			round();
		} else if (n == "ufin") { if (u >= 0) fin(u); } else if (n == "urst") { if (u >= 0) rst(u); }
		else if (n == "doom") doom[k] = o;
		else if (n == "forwarded") { int want = o["n"].toInt(1); await([=]() { return count.value(k) >= want || !valid(c) || cl[c].eof; }, D); }
		else if (n == "answered") { int want = o["n"].toInt(1); await([=]() { return !valid(c) || cl[c].eof || cl[c].answers >= want; }, D); }
		else if (n == "relayed") { int want = o["n"].toInt(), seen = o["seen"].toInt(); await([=]() { return !valid(c) || cl[c].eof || cl[c].answers > seen || cl[c].body >= want; }, D); }
		else if (n == "headed") { int seen = o["seen"].toInt(); await([=]() { return !valid(c) || cl[c].eof || cl[c].answers > seen || cl[c].in.contains("\r\n\r\n"); }, D); }
		else if (n == "closed") await([=]() { return !valid(c) || cl[c].eof; }, D);
		else if (n == "released") await([=]() { return carrier.value(k, -1) < 0 || !sv.valid(carrier[k]) || sv.peers[carrier[k]].closed; }, D);
		else if (n == "quiet") quiet(o["ms"].toInt(8));
		else if (n == "sync") { quiet(o["ms"].toInt(8)); t.event("sync"); }
		else { fprintf(stderr, "unknown op %s\n", qPrintable(n)); exit(2); }
	}
};

int main(int argc, char **argv) {
	QCoreApplication app(argc, argv);
	return runScripts(argc, argv, [](const QJsonObject &s) {
		Session *x = new Session(s);
		foreach (const QJsonValue &o, s["ops"].toArray()) x->doOp(o.toObject());
		QByteArray r = "{\"id\":" + jnum(qint64(s["id"].toDouble())) + ",\"ev\":[" + x->t.ev + "]}";
		delete x;
		return r;
	});
}
