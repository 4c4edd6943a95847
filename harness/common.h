// Shared helpers of the conformance drivers: byte strings are exchanged with the
// specification run-length encoded (one integer byte + 256*count per run).
#ifndef VERIF_COMMON_H
#define VERIF_COMMON_H
#include <QtCore/QtCore>
#include <QtNetwork/QtNetwork>
#include <functional>
#include <unistd.h>
#include <signal.h>
#include <sys/socket.h>
#include <sys/ioctl.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>
#include <linux/sockios.h>

static inline QByteArray rle(const char *d, qint64 n) {
	QByteArray o("[");
	qint64 i = 0; bool first = true;
	while (i < n) {
		qint64 j = i + 1;
		while (j < n && d[j] == d[i] && (j - i) < 8000000) ++j;
		if (!first) o.append(',');
		first = false;
		o.append(QByteArray::number(qint64((unsigned char)d[i]) + 256 * (j - i)));
		i = j;
	}
	o.append(']');
	return o;
}
static inline QByteArray rle(const QByteArray &b) { return rle(b.constData(), b.size()); }
static inline QByteArray rle(const QString &s) { return rle(s.toUtf8()); }

static inline QByteArray unrle(const QJsonValue &v) {
	QByteArray o;
	foreach (const QJsonValue &r, v.toArray()) {
		qint64 x = (qint64)r.toDouble();
		o.append(QByteArray(int(x / 256), char(x % 256)));
	}
	return o;
}

static inline QByteArray jstr(const QByteArray &s) { return "\"" + s + "\""; }
static inline QByteArray jnum(qint64 n) { if (n > 2000000000) n = 2000000000; return QByteArray::number(n); }
static inline QByteArray jbool(bool b) { return b ? "true" : "false"; }

// One recorded trace: a list of events.
struct Trace {
	QByteArray ev;
	int count;
	Trace() : count(0) {}
	void add(const QByteArray &json) { if (!ev.isEmpty()) ev.append(",\n"); ev.append('{').append(json).append('}'); ++count; }
	void event(const char *name, const QByteArray &rest = QByteArray()) {
		QByteArray e = "\"e\":\""; e.append(name).append('"');
		if (!rest.isEmpty()) e.append(',').append(rest);
		add(e);
	}
};

static inline QByteArray kv(const char *k, const QByteArray &v) { QByteArray o("\""); o.append(k).append("\":").append(v); return o; }

static void quietHandler(QtMsgType t, const QMessageLogContext &, const QString &m) {
	if (t == QtFatalMsg) { fprintf(stderr, "qFatal: %s\n", qPrintable(m)); abort(); }
	if (getenv("DRIVER_VERBOSE")) fprintf(stderr, "%s\n", qPrintable(m));
}

static void watchdog(int) { const char m[] = "driver: watchdog expired (hang)\n"; ssize_t r = write(2, m, sizeof(m) - 1); (void)r; _exit(97); }

// Run f(script) for every line of the scripts file; write one trace per line.
static int runScripts(int argc, char **argv, const std::function<QByteArray(const QJsonObject &)> &f) {
	if (argc < 3) { fprintf(stderr, "usage: driver SCRIPTS TRACES [first] \n"); return 2; }
	qInstallMessageHandler(quietHandler);
	signal(SIGPIPE, SIG_IGN);
	signal(SIGALRM, watchdog);
	int limit = getenv("DRIVER_LIMIT_S") ? atoi(getenv("DRIVER_LIMIT_S")) : 60;
	QFile in(argv[1]); if (!in.open(QIODevice::ReadOnly)) { fprintf(stderr, "cannot read scripts\n"); return 2; }
	int first = argc > 3 ? atoi(argv[3]) : 0, idx = 0;
	FILE *out = fopen(argv[2], "a"); if (!out) { fprintf(stderr, "cannot write traces\n"); return 2; }
	while (!in.atEnd()) {
		QByteArray line = in.readLine();
		if (line.trimmed().isEmpty()) continue;
		if (idx++ < first) continue;
		QJsonParseError err;
		QJsonDocument doc = QJsonDocument::fromJson(line, &err);
		if (doc.isNull()) { fprintf(stderr, "bad script line %d: %s\n", idx - 1, qPrintable(err.errorString())); return 2; }
		alarm(limit);
		QByteArray trace = f(doc.object());
		alarm(0);
		trace.replace('\n', "");
		fwrite(trace.constData(), 1, trace.size(), out); fputc('\n', out); fflush(out);
	}
	fclose(out);
	return 0;
}
#endif
