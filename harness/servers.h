// Scripted raw-socket servers running in the thread of the code under test.
#ifndef VERIF_SERVERS_H
#define VERIF_SERVERS_H
#include "common.h"
#include <fcntl.h>
#include <poll.h>
#include <errno.h>
#include <linux/sockios.h>

struct Peer {               // one accepted connection
	int fd, srv; bool mute, closed, announced; QByteArray in;
};

class Servers {
public:
	QList<int> listeners; QList<QByteArray> auth; QList<Peer> peers; QList<bool> down; sockaddr_in first;
	Servers() { memset(&first, 0, sizeof first); first.sin_addr.s_addr = htonl(0x7f000001u); }
	~Servers() { foreach (int fd, listeners) ::close(fd); foreach (const Peer &p, peers) if (p.fd >= 0) ::close(p.fd); }
	static void nonblock(int fd) { fcntl(fd, F_SETFL, fcntl(fd, F_GETFL) | O_NONBLOCK); }
	// Server k lives at 127.0.0.<k+1>, on a port of its own; one that is down has a bound port nobody listens on.
	// "up6" listens on the IPv6 loopback, "up80" on the default port of an address of this process (where possible).
	// "sib" shares the address of the first server, "twin" shares its port.
	void add(bool isDown, const QString &kind = QString()) {
		int k = listeners.size(); QByteArray name; int fd = -1; bool bound = false;
		if (kind == "up6") {
			fd = socket(AF_INET6, SOCK_STREAM | SOCK_CLOEXEC, 0);
			sockaddr_in6 a; memset(&a, 0, sizeof a); a.sin6_family = AF_INET6; a.sin6_addr = in6addr_loopback;
			if (fd >= 0 && !bind(fd, (sockaddr *)&a, sizeof a)) { socklen_t n = sizeof a; getsockname(fd, (sockaddr *)&a, &n); name = "[::1]:" + QByteArray::number(ntohs(a.sin6_port)); bound = true; }
			else if (fd >= 0) ::close(fd);
		}
		for (int i = 0; i < 50 && !bound; ++i) {
			fd = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0); int one = 1;
			sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(0x7f000001u + unsigned(k));
			if (kind == "up80" && i < 40) {
				setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
				a.sin_addr.s_addr = htonl(0x7f400000u + ((unsigned(getpid()) * 64u + unsigned(k) + 7919u * unsigned(i)) & 0x3fffffu)); a.sin_port = htons(80);
			} else if (kind == "sib" && k) a.sin_addr = first.sin_addr;
			else if (kind == "twin" && k && i < 40) {
				setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
				a.sin_addr.s_addr = htonl(0x7f800000u + ((unsigned(getpid()) * 64u + unsigned(k) + 7919u * unsigned(i)) & 0x3fffffu)); a.sin_port = first.sin_port;
			}
			if (bind(fd, (sockaddr *)&a, sizeof a)) { ::close(fd); continue; }
			socklen_t n = sizeof a; getsockname(fd, (sockaddr *)&a, &n); bound = true;
			name = QByteArray(inet_ntoa(a.sin_addr)); if (a.sin_port != htons(80)) name += ":" + QByteArray::number(ntohs(a.sin_port));
			if (!k) first = a;
		}
		if (!bound) { perror("bind"); exit(2); }
		if (!isDown && listen(fd, 64)) { perror("listen"); exit(2); }
		nonblock(fd); listeners << fd; down << isDown; auth << name;
	}
	// Accepts and reads whatever is there; true if anything happened.
	bool poll(const std::function<void(int)> &onAccept) {
		bool any = false;
		for (int k = 0; k < listeners.size(); ++k) for (;;) {
			if (down[k]) break;
			int fd = accept4(listeners[k], 0, 0, SOCK_CLOEXEC | SOCK_NONBLOCK);
			if (fd < 0) break;
			int one = 1; setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
			Peer p = { fd, k, false, false, false, QByteArray() }; peers << p; any = true;
			onAccept(peers.size() - 1);
		}
		for (int i = 0; i < peers.size(); ++i) {
			Peer &p = peers[i];
			if (p.fd < 0 || p.mute || p.closed) continue;
			for (;;) {
				char b[65536]; ssize_t n = ::recv(p.fd, b, sizeof b, 0);
				if (n > 0) { p.in.append(b, int(n)); any = true; int one = 1; setsockopt(p.fd, IPPROTO_TCP, TCP_QUICKACK, &one, sizeof one); continue; }
				if (n == 0 || (errno != EAGAIN && errno != EWOULDBLOCK && errno != EINTR)) { p.closed = true; any = true; }
				break;
			}
		}
		return any;
	}
	bool valid(int c) const { return c >= 0 && c < peers.size() && peers[c].fd >= 0; }
	// Delivers everything (waiting for window space), false if the connection is gone.
	bool send(int c, const QByteArray &d) {
		if (!valid(c)) return false;
		int off = 0; QElapsedTimer t; t.start();
		while (off < d.size()) {
			ssize_t n = ::send(peers[c].fd, d.constData() + off, d.size() - off, MSG_NOSIGNAL);
			if (n > 0) { off += int(n); continue; }
			if (errno != EAGAIN && errno != EWOULDBLOCK) return false;
			if (t.elapsed() > 3000) return true;        // the client does not read on: the rest is lost
			QCoreApplication::processEvents();
			usleep(100);
		}
		return true;
	}
	void fin(int c) { if (valid(c)) shutdown(peers[c].fd, SHUT_WR); }
	void rst(int c) {
		if (!valid(c)) return;
		linger l = { 1, 0 }; setsockopt(peers[c].fd, SOL_SOCKET, SO_LINGER, &l, sizeof l);
		::close(peers[c].fd); peers[c].fd = -1;
	}
	bool unacked() const {
		foreach (const Peer &p, peers) if (p.fd >= 0 && !p.closed) { int n = 0; if (ioctl(p.fd, SIOCOUTQNSD, &n) == 0 && n > 0) return true; }
		return false;
	}
};

// Bytes our sockets still have to hand over to their peers.
static inline bool unsent(const QList<QObject *> &roots) {
	foreach (QObject *r, roots) {
		QList<QAbstractSocket *> l = r->findChildren<QAbstractSocket *>();
		if (QAbstractSocket *s = qobject_cast<QAbstractSocket *>(r)) l << s;
		foreach (QAbstractSocket *s, l) {
			if (s->bytesToWrite() > 0) return true;
			int n = 0; if (s->socketDescriptor() >= 0 && s->state() == QAbstractSocket::ConnectedState && ioctl(int(s->socketDescriptor()), SIOCOUTQNSD, &n) == 0 && n > 0) return true;
		}
	}
	return false;
}

// Runs the event loop until nothing more happens by itself.
static inline void settleLoop(const std::function<bool()> &pollOnce, const std::function<bool()> &busy) {
	int quiet = 0, waited = 0;
	while (quiet < 3) {
		QCoreApplication::sendPostedEvents(0, 0);
		QCoreApplication::sendPostedEvents(0, QEvent::DeferredDelete);
		bool a = QAbstractEventDispatcher::instance()->processEvents(QEventLoop::AllEvents);
		if (pollOnce()) a = true;
		if (a) { quiet = 0; continue; }
		if (busy() && waited < 60) { ++waited; usleep(waited < 20 ? 50 : 1000); continue; }
		++quiet;
	}
}
#endif
