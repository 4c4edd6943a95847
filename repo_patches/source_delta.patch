From 3718a7c50ecdc86c67445f4401ef531b22ae3c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:36 +0000
Subject: [PATCH 01/50] fix: send a complete status line when the application
 uses an unknown status code

The replacement for an invalid status code was only the reason phrase, so
the status line had no status code ("HTTP/1.1 Internal Server Error").
---
 pillowcore/HttpConnection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pillowcore/HttpConnection.cpp b/pillowcore/HttpConnection.cpp
index 3ac43a1..d02b021 100644
--- a/pillowcore/HttpConnection.cpp
+++ b/pillowcore/HttpConnection.cpp
@@ -456,7 +456,7 @@ inline void Pillow::HttpConnectionPrivate::writeHeaders(int statusCode, const Ht
 	{
 		// Huh? Trying to send a bad status code...
 		qWarning() << "HttpConnection::writeHeaders:" << statusCode << "is not a valid Http status code. Using 500 Internal Server Error instead.";
-		statusCodeAndMessage = HttpProtocol::StatusCodes::getStatusMessage(500); // Internal server error.
+		statusCodeAndMessage = HttpProtocol::StatusCodes::getStatusCodeAndMessage(500); // Internal server error.
 	}
 	_responseStatusCode = statusCode;
 
-- 
2.43.0


From 2c3b5cec0d10df38f2f61dc441bd2c86a2d089e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:36 +0000
Subject: [PATCH 02/50] fix: do not carry on with a connection closed while its
 request completes

close() from within requestCompleted, or a socket found disconnected while
flushing, closed the connection and cleared its devices; the connection then
went on receiving and crashed on the null device.
---
 pillowcore/HttpConnection.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pillowcore/HttpConnection.cpp b/pillowcore/HttpConnection.cpp
index d02b021..b34603a 100644
--- a/pillowcore/HttpConnection.cpp
+++ b/pillowcore/HttpConnection.cpp
@@ -326,6 +326,7 @@ inline void Pillow::HttpConnectionPrivate::transitionToCompleted()
 	}
 	_state = Pillow::HttpConnection::Completed;
 	emit q_ptr->requestCompleted(q_ptr);
+	if (_state != Pillow::HttpConnection::Completed) return; // Closed from within requestCompleted.
 
 	// Preserve any existing data in the request buffer that did not belong to the completed request.
 	// Reuse the already allocated buffer if it is not too large.
@@ -344,6 +345,7 @@ inline void Pillow::HttpConnectionPrivate::transitionToCompleted()
 	if (_responseConnectionKeepAlive)
 	{
 		flush(); // Done writing for this request, make sure the data is pushed right away to the client.
+		if (_state != Pillow::HttpConnection::Completed) return; // The client went away while flushing.
 		transitionToReceivingHeaders();
 		processInput();
 	}
-- 
2.43.0


From 18d1d0428f0754de8ffede88b67c7838e3486662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:58 +0000
Subject: [PATCH 03/50] fix: do not write the content of a completed response
 into the next one

A response to HEAD, or one with an explicit Content-Length of 0, completes as
soon as its headers are written, and the next pipelined request may start
within that call. writeResponse() then went on to test the method of, and
write its content into, whatever request was current by then.
---
 pillowcore/HttpConnection.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pillowcore/HttpConnection.cpp b/pillowcore/HttpConnection.cpp
index b34603a..124a527 100644
--- a/pillowcore/HttpConnection.cpp
+++ b/pillowcore/HttpConnection.cpp
@@ -121,7 +121,7 @@ namespace Pillow
 	public: // From public interface.
 		void writeResponse(int statusCode = 200, const Pillow::HttpHeaderCollection& headers = Pillow::HttpHeaderCollection(), const QByteArray& content = QByteArray());
 		void writeResponseString(int statusCode = 200, const Pillow::HttpHeaderCollection& headers = Pillow::HttpHeaderCollection(), const QString& content = QString());
-		void writeHeaders(int statusCode = 200, const Pillow::HttpHeaderCollection& headers = Pillow::HttpHeaderCollection());
+		bool writeHeaders(int statusCode = 200, const Pillow::HttpHeaderCollection& headers = Pillow::HttpHeaderCollection()); // Returns whether content is to follow the headers.
 		void writeContent(const QByteArray& content);
 		void endContent();
 		void close();
@@ -441,16 +441,16 @@ inline void Pillow::HttpConnectionPrivate::writeResponse(int statusCode, const H
 
 	// Calculate the Content-Length header so it can be set in WriteHeaders, unless it is already present.
 	_responseContentLength = content.size();
-	writeHeaders(statusCode, headers);
-	if (!content.isEmpty() && _requestMethod != headToken) writeContent(content);
+	const bool expectsContent = writeHeaders(statusCode, headers);
+	if (expectsContent && !content.isEmpty()) writeContent(content);
 }
 
-inline void Pillow::HttpConnectionPrivate::writeHeaders(int statusCode, const HttpHeaderCollection &headers)
+inline bool Pillow::HttpConnectionPrivate::writeHeaders(int statusCode, const HttpHeaderCollection &headers)
 {
 	if (_state != Pillow::HttpConnection::SendingHeaders)
 	{
 		qWarning() << "HttpConnection::writeHeaders called while state is not 'SendingHeaders', not proceeding with sending headers.";
-		return;
+		return false;
 	}
 
 	const char* statusCodeAndMessage = HttpProtocol::StatusCodes::getStatusCodeAndMessage(statusCode);
@@ -551,7 +551,11 @@ inline void Pillow::HttpConnectionPrivate::writeHeaders(int statusCode, const Ht
 	if (transferEncodingHeader) { _responseHeadersBuffer.append(*transferEncodingHeader); }
 	_responseHeadersBuffer.append(crLfToken); // End of headers.
 	_outputDevice->write(_responseHeadersBuffer);
+
+	// Without content to follow the request completes right away, and the next one may even start.
+	const bool expectsContent = _responseContentLength != 0 && _requestMethod != headToken;
 	transitionToSendingContent();
+	return expectsContent;
 }
 
 inline void Pillow::HttpConnectionPrivate::writeContent(const QByteArray &content)
-- 
2.43.0


From e60649ddc7ce6f03ca584376f77a1ccf949c4fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:21 +0000
Subject: [PATCH 04/50] fix: announce response lengths above 2 GiB without
 truncating them

The length was formatted as an int.
---
 pillowcore/HttpConnection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pillowcore/HttpConnection.cpp b/pillowcore/HttpConnection.cpp
index 124a527..61f8cf5 100644
--- a/pillowcore/HttpConnection.cpp
+++ b/pillowcore/HttpConnection.cpp
@@ -545,7 +545,7 @@ inline bool Pillow::HttpConnectionPrivate::writeHeaders(int statusCode, const Ht
 		_responseConnectionKeepAlive = false;
 
 	// Automatically add essential headers.
-	if (_responseContentLength != -1) { _responseHeadersBuffer.append(contentLengthOutToken); appendNumber<int, 10>(_responseHeadersBuffer, _responseContentLength); _responseHeadersBuffer.append(crLfToken); }
+	if (_responseContentLength != -1) { _responseHeadersBuffer.append(contentLengthOutToken); appendNumber<qint64, 10>(_responseHeadersBuffer, _responseContentLength); _responseHeadersBuffer.append(crLfToken); }
 	if (contentTypeHeader) { _responseHeadersBuffer.append(*contentTypeHeader); } else if (_responseContentLength > 0) { _responseHeadersBuffer.append(contentTypeTextPlainTokenHeaderToken); }
 	if (!_requestHttp11 || !_responseConnectionKeepAlive) _responseHeadersBuffer.append(_responseConnectionKeepAlive ? connectionKeepAliveHeaderToken : connectionCloseHeaderToken);
 	if (transferEncodingHeader) { _responseHeadersBuffer.append(*transferEncodingHeader); }
-- 
2.43.0


From b59e95e06f5c05d585a59d346835483bc37d7152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:21 +0000
Subject: [PATCH 05/50] fix: treat a negative response content-length like any
 other invalid one

It was written out to the client.
---
 pillowcore/HttpConnection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pillowcore/HttpConnection.cpp b/pillowcore/HttpConnection.cpp
index 61f8cf5..fd0f27d 100644
--- a/pillowcore/HttpConnection.cpp
+++ b/pillowcore/HttpConnection.cpp
@@ -478,7 +478,7 @@ inline bool Pillow::HttpConnectionPrivate::writeHeaders(int statusCode, const Ht
 		{
 			bool ok = false;
 			_responseContentLength = header->second.toLongLong(&ok);
-			if (!ok)
+			if (!ok || _responseContentLength < 0)
 			{
 				// Somebody trying to be a bad server? Pretend we don't know the length.
 				qWarning() << "HttpConnection::writeHeaders: Invalid content-length header specified. Sending response as if content-length was unknown.";
-- 
2.43.0


From c905ffa0fedb6e447c4c8fa3b605036497cab0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:57 +0000
Subject: [PATCH 06/50] fix: serve pipelined requests one after the other
 instead of recursively

Each request answered from within requestReady nested the processing of the
next one, so a client pipelining some thousand requests in one go overflowed
the server's stack.
---
 pillowcore/HttpConnection.cpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/pillowcore/HttpConnection.cpp b/pillowcore/HttpConnection.cpp
index fd0f27d..d23ae0b 100644
--- a/pillowcore/HttpConnection.cpp
+++ b/pillowcore/HttpConnection.cpp
@@ -78,6 +78,7 @@ namespace Pillow
 
 	public:
 		Pillow::HttpConnection::State _state;
+		bool _processingInput, _processInputAgain;
 		QIODevice* _inputDevice,* _outputDevice;
 		http_parser _parser;
 
@@ -104,6 +105,7 @@ namespace Pillow
 	public:
 		void initialize();
 		void processInput();
+		void processAvailableInput();
 		void setupRequestHeaders();
 		void transitionToReceivingHeaders();
 		void transitionToReceivingContent();
@@ -129,7 +131,7 @@ namespace Pillow
 }
 
 Pillow::HttpConnectionPrivate::HttpConnectionPrivate(HttpConnection *connection)
-	: q_ptr(connection), _state(Pillow::HttpConnection::Uninitialized), _inputDevice(0), _outputDevice(0)
+	: q_ptr(connection), _state(Pillow::HttpConnection::Uninitialized), _processingInput(false), _processInputAgain(false), _inputDevice(0), _outputDevice(0)
 {
 	// Detach bytearrays we're going to write to from global shared null as we'll be thinkering with their internal data with the assumption that they are never shared.
 	_requestBuffer.detach();
@@ -155,6 +157,21 @@ inline void Pillow::HttpConnectionPrivate::initialize()
 }
 
 inline void Pillow::HttpConnectionPrivate::processInput()
+{
+	// A request answered right from requestReady leads back here for the next one. Do not nest, as the
+	// client decides how many requests it pipelines.
+	if (_processingInput) { _processInputAgain = true; return; }
+
+	_processingInput = true;
+	do
+	{
+		_processInputAgain = false;
+		processAvailableInput();
+	} while (_processInputAgain);
+	_processingInput = false;
+}
+
+void Pillow::HttpConnectionPrivate::processAvailableInput()
 {
 	if (_state != Pillow::HttpConnection::ReceivingHeaders && _state != Pillow::HttpConnection::ReceivingContent) return;
 
-- 
2.43.0


From 305187affa388428f9e557db87ce6e6d3169c4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:38 +0000
Subject: [PATCH 07/50] fix: keep the '?' of a request URI with an empty query
 string

The URI shared its bytes with the path, whose terminating null then replaced
the '?': "/a?" was delivered as "/a\0".
---
 pillowcore/HttpConnection.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pillowcore/HttpConnection.cpp b/pillowcore/HttpConnection.cpp
index d23ae0b..ef6096d 100644
--- a/pillowcore/HttpConnection.cpp
+++ b/pillowcore/HttpConnection.cpp
@@ -280,9 +280,9 @@ inline void Pillow::HttpConnectionPrivate::transitionToSendingHeaders()
 
 	char* data = _requestBuffer.data();
 
-	if (_parser.query_string_len == 0)
+	if (_parser.request_path_len == 0 || _parser.request_path_start + _parser.request_path_len == _parser.request_uri_start + _parser.request_uri_len)
 	{
-		// The request uri has no query string, we can use the data straight because it means that inserting null after the path
+		// The request uri ends with the path, we can use the data straight because it means that inserting null after the path
 		// will not destroy the uri (which does not include the fragment).
 		setFromRawDataAndNullterm(_requestUri, data, _parser.request_uri_start, _parser.request_uri_len);
 	}
-- 
2.43.0


From 9eb1e0c29a60518273a7b52c3d5c698349d69032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:34 +0000
Subject: [PATCH 08/50] fix: hide every interim response, however many arrive
 at once

---
 pillowcore/HttpClient.cpp | 31 +++++++++++++------------------
 pillowcore/HttpClient.h   |  1 +
 2 files changed, 14 insertions(+), 18 deletions(-)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index 921fe23..948a469 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -596,24 +596,13 @@ void Pillow::HttpClient::device_readyRead()
 
 		if (!hasError())
 		{
-			if (consumed < _buffer.size())
-			{
-				// We had multiple responses in the buffer?
-				// It was a 100 Continue since we are still response pending.
+			// We had multiple responses in the buffer?
+			// The previous ones were interim responses since we are still response pending.
+			while (responsePending() && !hasError() && consumed < _buffer.size())
 				consumed += inject(_buffer.constData() + consumed, _buffer.size() - consumed);
-
-				if (consumed < _buffer.size())
-				{
-					qWarning() << "Left some unconsumed data in the buffer:" << (_buffer.size() - consumed);
-				}
-			}
-			else
-			{
-				// Just waiting for more data to consume.
-			}
 		}
 
-		if (hasError()) // Re-check for error in case we injected again in the 100 Continue case above.
+		if (responsePending() && hasError()) // Re-check for error in case we injected again in the interim response case above.
 		{
 			_error = ResponseInvalidError;
 			_device->close();
@@ -639,6 +628,12 @@ void Pillow::HttpClient::device_readyRead()
 
 }
 
+bool Pillow::HttpClient::isInterimResponse() const
+{
+	// 101 is the last response of its exchange, what follows is in another protocol.
+	return statusCode() / 100 == 1 && statusCode() != 101;
+}
+
 void Pillow::HttpClient::sendRequest()
 {
 	if (!responsePending()) return;
@@ -674,7 +669,7 @@ void Pillow::HttpClient::messageBegin()
 void Pillow::HttpClient::headersComplete()
 {
 	Pillow::HttpResponseParser::headersComplete();
-	if (statusCode() == 100)
+	if (isInterimResponse())
 		return;
 
 	emit headersCompleted();
@@ -719,9 +714,9 @@ void Pillow::HttpClient::messageComplete()
 	delete _contentDecoder;
 	_contentDecoder = 0;
 
-	if (statusCode() == 100)
+	if (isInterimResponse())
 	{
-		// Completely hide and ignore the 100 response we just received.
+		// Completely hide and ignore the interim (1xx) response we just received.
 		clear();
 	}
 	else
diff --git a/pillowcore/HttpClient.h b/pillowcore/HttpClient.h
index bbf25fb..e9f8243 100644
--- a/pillowcore/HttpClient.h
+++ b/pillowcore/HttpClient.h
@@ -230,6 +230,7 @@ namespace Pillow
 
 	private:
 		void sendRequest();
+		bool isInterimResponse() const;
 
 	protected:
 		void messageBegin();
-- 
2.43.0


From 71b971b23930609ed42d20d67dc0ab21e086fbd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:34 +0000
Subject: [PATCH 09/50] fix: do not leak an unfinished header or the last
 trailer into the next response

---
 pillowcore/HttpClient.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index 948a469..75e059f 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -241,6 +241,9 @@ void Pillow::HttpResponseParser::clear()
 	http_parser_init(&parser, HTTP_RESPONSE);
 	while (!_headers.isEmpty()) _headers.pop_back();
 	_content.clear();
+	_field.clear();
+	_value.clear();
+	_lastWasValue = false;
 
 	if (_parsing) pause(); // clear() got called from a callback. gracefully recover by pausing the parser.
 }
@@ -317,6 +320,7 @@ int Pillow::HttpResponseParser::parser_on_body(http_parser *parser, const char *
 int Pillow::HttpResponseParser::parser_on_message_complete(http_parser *parser)
 {
 	Pillow::HttpResponseParser* self = reinterpret_cast<Pillow::HttpResponseParser*>(parser->data);
+	self->pushHeader(); // The last trailer of a chunked message, if any.
 	self->messageComplete();
 
 	// Pause the parser to avoid parsing the next message (if there is another one in the buffer).
-- 
2.43.0


From a0a41d855a3293823ddf85ddd570ad225fa53927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:34 +0000
Subject: [PATCH 10/50] fix: responses to HEAD and 204/304 responses have no
 body, whatever their headers say

---
 pillowcore/HttpClient.cpp | 20 +++++++++++++-------
 pillowcore/HttpClient.h   |  2 ++
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index 75e059f..d393298 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -265,6 +265,11 @@ void Pillow::HttpResponseParser::headersComplete()
 {
 }
 
+bool Pillow::HttpResponseParser::responseHasBody() const
+{
+	return !(statusCode() / 100 == 1 || statusCode() == 204 || statusCode() == 304);
+}
+
 void Pillow::HttpResponseParser::messageContent(const char *data, int length)
 {
 	_content.append(data, length);
@@ -307,7 +312,7 @@ int Pillow::HttpResponseParser::parser_on_headers_complete(http_parser *parser)
 	Pillow::HttpResponseParser* self = reinterpret_cast<Pillow::HttpResponseParser*>(parser->data);
 	self->pushHeader();
 	self->headersComplete();
-	return 0;
+	return self->responseHasBody() ? 0 : 1; // 1 tells the parser that there is no body, whatever the headers say.
 }
 
 int Pillow::HttpResponseParser::parser_on_body(http_parser *parser, const char *at, size_t length)
@@ -678,12 +683,7 @@ void Pillow::HttpClient::headersComplete()
 
 	emit headersCompleted();
 
-	if (Pillow::ByteArrayHelpers::asciiEqualsCaseInsensitive(_request.method, Pillow::LowerCaseToken("head")))
-	{
-		pause();
-		messageComplete();
-	}
-	else
+	if (responseHasBody())
 	{
 #ifdef PILLOW_ZLIB
 		for (int i = 0, iE = _headers.size(); i < iE; ++i)
@@ -699,6 +699,12 @@ void Pillow::HttpClient::headersComplete()
 	}
 }
 
+bool Pillow::HttpClient::responseHasBody() const
+{
+	return Pillow::HttpResponseParser::responseHasBody()
+		&& !Pillow::ByteArrayHelpers::asciiEqualsCaseInsensitive(_request.method, Pillow::LowerCaseToken("head"));
+}
+
 void Pillow::HttpClient::messageContent(const char *data, int length)
 {
 	if (_contentDecoder)
diff --git a/pillowcore/HttpClient.h b/pillowcore/HttpClient.h
index e9f8243..38f39c2 100644
--- a/pillowcore/HttpClient.h
+++ b/pillowcore/HttpClient.h
@@ -106,6 +106,7 @@ namespace Pillow
 		// Parser callbacks.
 		virtual void messageBegin();    // Defaults to clearing previous response members.
 		virtual void headersComplete(); // Defaults to doing nothing.
+		virtual bool responseHasBody() const; // Called after headersComplete(). Defaults to true except for the 1xx, 204 and 304 statuses.
 		virtual void messageContent(const char *data, int length); // Defaults to appending to _content
 		virtual void messageComplete(); // Defaults to doing nothing.
 
@@ -235,6 +236,7 @@ namespace Pillow
 	protected:
 		void messageBegin();
 		void headersComplete();
+		bool responseHasBody() const;
 		void messageContent(const char *data, int length);
 		void messageComplete();
 
-- 
2.43.0


From c785dd2025e345968336d39a0468d996ab6754fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:34 +0000
Subject: [PATCH 11/50] fix: an Upgrade header does not end a response other
 than 101

---
 pillowcore/parser/http_parser.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pillowcore/parser/http_parser.c b/pillowcore/parser/http_parser.c
index 6dbabe8..a1c9e70 100644
--- a/pillowcore/parser/http_parser.c
+++ b/pillowcore/parser/http_parser.c
@@ -1568,7 +1568,8 @@ size_t http_parser_execute (http_parser *parser,
 
 		/* Set this here so that on_headers_complete() callbacks can see it */
 		parser->upgrade =
-		  (parser->flags & F_UPGRADE || parser->method == HTTP_CONNECT);
+		  ((parser->flags & F_UPGRADE && (parser->type == HTTP_REQUEST || parser->status_code == 101)) ||
+		   parser->method == HTTP_CONNECT);
 
 		/* Here we call the headers_complete callback. This is somewhat
 		 * different than other callbacks because if the user returns 1, we
-- 
2.43.0


From 8bc4dfb90e9cd5e806c7f1566ffb490718a82ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:50 +0000
Subject: [PATCH 12/50] fix: the end of the connection completes a response
 that is delimited by it

---
 pillowcore/HttpClient.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index d393298..0f3a9f0 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -546,6 +546,13 @@ void Pillow::HttpClient::device_error(QAbstractSocket::SocketError error)
 		return;
 	}
 
+	if (error == QAbstractSocket::RemoteHostClosedError)
+	{
+		// The end of the connection may be what completes the response.
+		injectEof();
+		if (!_responsePending) return;
+	}
+
 	switch (error)
 	{
 	case QAbstractSocket::RemoteHostClosedError:
-- 
2.43.0


From e0f248841604cd7608074d55e815b9eafa37c064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:50 +0000
Subject: [PATCH 13/50] fix: do not decode a response with the decoder an
 unfinished one left behind

---
 pillowcore/HttpClient.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index 0f3a9f0..23f241d 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -488,6 +488,10 @@ void Pillow::HttpClient::request(const Pillow::HttpClientRequest &request)
 	_error = NoError;
 	clear();
 
+	// The previous response may have ended before it got to drop its decoder.
+	delete _contentDecoder;
+	_contentDecoder = 0;
+
 	const bool isConnected = _device->state() == QAbstractSocket::ConnectedState;
 	const bool sameServer = _request.url.host() == previousHost && _request.url.port() == previousPort;
 	const bool keepAliveTimeoutExpired = sameServer && (_keepAliveTimeout >= 0 && _keepAliveTimeoutTimer.isValid() && _keepAliveTimeoutTimer.hasExpired(_keepAliveTimeout));
-- 
2.43.0


From 53e263f3cf68fb740db2214366298d013e176eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:50 +0000
Subject: [PATCH 14/50] fix: do not close a re-usable connection just because
 the content was consumed

---
 pillowcore/HttpClient.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index 23f241d..ee49d21 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -581,8 +581,10 @@ void Pillow::HttpClient::device_readyRead()
 	if (!responsePending())
 	{
 		// Not supposed to be receiving data at this point. Just
-		// ignore it and close the connection.
-		_device->close();
+		// ignore it and close the connection. There may be no data at all
+		// when getting here after consumeContent().
+		if (_device->bytesAvailable() > 0)
+			_device->close();
 		return;
 	}
 
-- 
2.43.0


From 4f96adec49cfb299b9596c45ff0c2594c152617c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:50 +0000
Subject: [PATCH 15/50] fix: send '/' for an empty request path and keep the
 '?' of an empty query

---
 pillowcore/HttpClient.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index ee49d21..0586434 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -671,8 +671,8 @@ void Pillow::HttpClient::sendRequest()
 	}
 
 	QByteArray uri = _request.url.encodedPath();
-	const QByteArray query = _request.url.encodedQuery();
-	if (!query.isEmpty()) uri.append('?').append(query);
+	if (uri.isEmpty()) uri.append('/');
+	if (_request.url.hasQuery()) uri.append('?').append(_request.url.encodedQuery());
 
 	Pillow::HttpHeaderCollection headers;
 	headers.reserve(_request.headers.size() + 1);
-- 
2.43.0


From 8a058529a0ee4cb585a43463e14fcb2e34b5950d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:50 +0000
Subject: [PATCH 16/50] fix: resolve relative redirections, and follow none
 without a location

---
 pillowcore/HttpClient.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index 0586434..f6fb6d6 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -536,8 +536,15 @@ void Pillow::HttpClient::followRedirection()
 		return;
 	}
 
+	const QByteArray location = redirectionLocation();
+	if (location.isEmpty())
+	{
+		qWarning("Pillow::HttpClient::followRedirection(): the redirection does not tell where to go.");
+		return;
+	}
+
 	Pillow::HttpClientRequest newRequest = _request;
-	newRequest.url = QUrl::fromEncoded(redirectionLocation());
+	newRequest.url = _request.url.resolved(QUrl::fromEncoded(location));
 	request(newRequest);
 }
 
-- 
2.43.0


From c89219e1a691588cf3f200506fc93d8b676c7ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:50 +0000
Subject: [PATCH 17/50] fix: keep the error of a network reply

---
 pillowcore/HttpClient.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index f6fb6d6..49c9e15 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -871,6 +871,7 @@ namespace Pillow
 				case Pillow::HttpClient::AbortedError: error = QNetworkReply::OperationCanceledError; break;
 				}
 
+				setError(error, QString());
 				emit this->error(error);
 			}
 
-- 
2.43.0


From 136833cd781dd3857bb240fdd58a5d8e3c5f9f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:19 +0000
Subject: [PATCH 18/50] fix: refuse a second request made in a callback, and
 abort one that did not start yet

---
 pillowcore/HttpClient.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index 49c9e15..eec9ad0 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -464,7 +464,7 @@ void Pillow::HttpClient::request(const QByteArray &method, const QUrl &url, cons
 
 void Pillow::HttpClient::request(const Pillow::HttpClientRequest &request)
 {
-	if (_responsePending)
+	if (_responsePending || !_pendingRequest.method.isNull())
 	{
 		qWarning("Pillow::HttpClient::request: cannot send new request while another one is under way. Request pipelining is not supported.");
 		return;
@@ -526,6 +526,13 @@ void Pillow::HttpClient::abort()
 		_responsePending = false;
 		emit finished();
 	}
+	else if (!_pendingRequest.method.isNull())
+	{
+		// The request was made in a callback and did not start yet.
+		_pendingRequest = Pillow::HttpClientRequest();
+		_error = AbortedError;
+		emit finished();
+	}
 }
 
 void Pillow::HttpClient::followRedirection()
-- 
2.43.0


From bc05503999d80f2e8c3b3137d5d84c105ffd4738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:10 +0000
Subject: [PATCH 19/50] fix: start a request made while the connection fails
 once it is gone

---
 pillowcore/HttpClient.cpp | 60 +++++++++++++++++++++++----------------
 pillowcore/HttpClient.h   |  2 ++
 2 files changed, 38 insertions(+), 24 deletions(-)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index eec9ad0..3e3cf21 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -350,7 +350,7 @@ inline void Pillow::HttpResponseParser::pushHeader()
 //
 
 Pillow::HttpClient::HttpClient(QObject *parent)
-	: QObject(parent), _responsePending(false), _error(NoError), _keepAliveTimeout(-1), _contentDecoder(0)
+	: QObject(parent), _responsePending(false), _handlingError(false), _error(NoError), _keepAliveTimeout(-1), _contentDecoder(0)
 {
 	_device = new QTcpSocket(this);
 	connect(_device, SIGNAL(error(QAbstractSocket::SocketError)), this, SLOT(device_error(QAbstractSocket::SocketError)));
@@ -470,11 +470,12 @@ void Pillow::HttpClient::request(const Pillow::HttpClientRequest &request)
 		return;
 	}
 
-	if (Pillow::HttpResponseParser::isParsing())
+	if (Pillow::HttpResponseParser::isParsing() || _handlingError)
 	{
 		// We most likely got cancelled in a callback or got asked for a new request
 		// in the messageComplete() callback. So we are not responsePending but still parsing.
-		// Keep the request for after we come out of parsing.
+		// Keep the request for after we come out of parsing. The same goes for a request made
+		// while the device announces an error, as it is going to be closed right after.
 		_pendingRequest = request;
 		return;
 	}
@@ -564,25 +565,42 @@ void Pillow::HttpClient::device_error(QAbstractSocket::SocketError error)
 		return;
 	}
 
+	_handlingError = true;
+
+	// The end of the connection may be what completes the response.
 	if (error == QAbstractSocket::RemoteHostClosedError)
-	{
-		// The end of the connection may be what completes the response.
 		injectEof();
-		if (!_responsePending) return;
-	}
 
-	switch (error)
+	if (_responsePending)
 	{
-	case QAbstractSocket::RemoteHostClosedError:
-		_error = RemoteHostClosedError;
-		break;
-	default:
-		_error = NetworkError;
+		switch (error)
+		{
+		case QAbstractSocket::RemoteHostClosedError:
+			_error = RemoteHostClosedError;
+			break;
+		default:
+			_error = NetworkError;
+		}
+
+		_device->close();
+		_responsePending = false;
+		emit finished();
 	}
 
-	_device->close();
-	_responsePending = false;
-	emit finished();
+	_handlingError = false;
+
+	// We got a new request while in callback. Wait for the device to be done with the error.
+	if (!_pendingRequest.method.isNull())
+		QTimer::singleShot(0, this, SLOT(startPendingRequest()));
+}
+
+void Pillow::HttpClient::startPendingRequest()
+{
+	if (_responsePending || _pendingRequest.method.isNull()) return;
+
+	Pillow::HttpClientRequest r = _pendingRequest;
+	_pendingRequest = Pillow::HttpClientRequest(); // Clear it.
+	request(r);
 }
 
 void Pillow::HttpClient::device_connected()
@@ -654,14 +672,8 @@ void Pillow::HttpClient::device_readyRead()
 		_buffer.data_ptr()->size = 0;
 
 	// Response completed or got aborted in a callback.
-	if (!responsePending() && !_pendingRequest.method.isNull())
-	{
-		// Plus we got a new request while in callback.
-		Pillow::HttpClientRequest r = _pendingRequest;
-		_pendingRequest = Pillow::HttpClientRequest(); // Clear it.
-		request(r);
-	}
-
+	// Plus we may have got a new request while in callback.
+	startPendingRequest();
 }
 
 bool Pillow::HttpClient::isInterimResponse() const
diff --git a/pillowcore/HttpClient.h b/pillowcore/HttpClient.h
index 38f39c2..555dcbc 100644
--- a/pillowcore/HttpClient.h
+++ b/pillowcore/HttpClient.h
@@ -228,6 +228,7 @@ namespace Pillow
 		void device_error(QAbstractSocket::SocketError error);
 		void device_connected();
 		void device_readyRead();
+		void startPendingRequest();
 
 	private:
 		void sendRequest();
@@ -247,6 +248,7 @@ namespace Pillow
 		Pillow::HttpRequestWriter _requestWriter;
 		Pillow::HttpResponseParser _responseParser;
 		bool _responsePending;
+		bool _handlingError; // Whether the device is announcing an error.
 		Error _error;
 		QByteArray _buffer;
 		int _keepAliveTimeout;
-- 
2.43.0


From 9ca47cb469937004d9b0367f00fc86b6ea7bd53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:49 +0000
Subject: [PATCH 20/50] fix: connect to another server although the old
 connection has unsent data

---
 pillowcore/HttpClient.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index 3e3cf21..7246790 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -512,6 +512,8 @@ void Pillow::HttpClient::request(const Pillow::HttpClientRequest &request)
 
 		if (_device->state() != QAbstractSocket::UnconnectedState)
 			_device->disconnectFromHost();
+		if (_device->state() != QAbstractSocket::UnconnectedState)
+			_device->abort(); // Still has something to write, which noone is going to read.
 		_device->connectToHost(_request.url.host(), _request.url.port(80));
 	}
 }
-- 
2.43.0


From 1138be4b2bd23c8d982800212a745c88aeb13d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:08 +0000
Subject: [PATCH 21/50] fix: deliver what is left in a bounded buffer before
 the end of the connection

---
 pillowcore/HttpClient.cpp | 14 +++++++++++++-
 pillowcore/HttpClient.h   |  1 +
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index 7246790..86502a8 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -350,7 +350,7 @@ inline void Pillow::HttpResponseParser::pushHeader()
 //
 
 Pillow::HttpClient::HttpClient(QObject *parent)
-	: QObject(parent), _responsePending(false), _handlingError(false), _error(NoError), _keepAliveTimeout(-1), _contentDecoder(0)
+	: QObject(parent), _responsePending(false), _handlingError(false), _remoteHostClosed(false), _error(NoError), _keepAliveTimeout(-1), _contentDecoder(0)
 {
 	_device = new QTcpSocket(this);
 	connect(_device, SIGNAL(error(QAbstractSocket::SocketError)), this, SLOT(device_error(QAbstractSocket::SocketError)));
@@ -486,6 +486,7 @@ void Pillow::HttpClient::request(const Pillow::HttpClientRequest &request)
 
 	_request = request;
 	_responsePending = true;
+	_remoteHostClosed = false;
 	_error = NoError;
 	clear();
 
@@ -567,6 +568,13 @@ void Pillow::HttpClient::device_error(QAbstractSocket::SocketError error)
 		return;
 	}
 
+	if (error == QAbstractSocket::RemoteHostClosedError && _device->bytesAvailable() > 0)
+	{
+		// The read buffers are full. The end only comes after what is left to consume.
+		_remoteHostClosed = true;
+		return;
+	}
+
 	_handlingError = true;
 
 	// The end of the connection may be what completes the response.
@@ -673,6 +681,10 @@ void Pillow::HttpClient::device_readyRead()
 	else
 		_buffer.data_ptr()->size = 0;
 
+	// Got at what the remote host sent just before closing the connection.
+	if (_responsePending && _remoteHostClosed && _device->bytesAvailable() == 0)
+		device_error(QAbstractSocket::RemoteHostClosedError);
+
 	// Response completed or got aborted in a callback.
 	// Plus we may have got a new request while in callback.
 	startPendingRequest();
diff --git a/pillowcore/HttpClient.h b/pillowcore/HttpClient.h
index 555dcbc..a9d2dfc 100644
--- a/pillowcore/HttpClient.h
+++ b/pillowcore/HttpClient.h
@@ -249,6 +249,7 @@ namespace Pillow
 		Pillow::HttpResponseParser _responseParser;
 		bool _responsePending;
 		bool _handlingError; // Whether the device is announcing an error.
+		bool _remoteHostClosed; // Whether the end of the connection has been seen, with content left to consume before it.
 		Error _error;
 		QByteArray _buffer;
 		int _keepAliveTimeout;
-- 
2.43.0


From 27266b33eb6ddf645ce19bc485aec66e9122efd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:42 +0000
Subject: [PATCH 22/50] fix: pass a whole undecodable body through, also when
 it arrives in pieces

---
 pillowcore/HttpClient.cpp | 39 ++++++++++++++++++++++++++++++++-------
 1 file changed, 32 insertions(+), 7 deletions(-)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index 86502a8..0afa318 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -32,13 +32,14 @@ namespace Pillow
 	public:
 		virtual ~ContentTransformer() {}
 		virtual QByteArray transform(const char *data, int length) = 0;
+		virtual QByteArray finish() = 0; // What is left to output once the content is complete.
 	};
 
 #ifdef PILLOW_ZLIB
 	class GunzipContentTransformer : public ContentTransformer
 	{
 	public:
-		GunzipContentTransformer(): _streamBad(false)
+		GunzipContentTransformer(): _streamBad(false), _streamEnded(false)
 		{
 			memset(&_inflateStream, 0, sizeof(z_stream));
 			inflateInit2(&_inflateStream, 31);
@@ -65,7 +66,9 @@ namespace Pillow
 				_inflateStream.next_out = buffer;
 				_inflateStream.avail_out = sizeof(buffer);
 
-				if (_streamBad || inflate(&_inflateStream, Z_NO_FLUSH) < 0) // Less than 0 is error.
+				const int result = _streamBad ? Z_DATA_ERROR : inflate(&_inflateStream, Z_NO_FLUSH);
+				_streamEnded = (result == Z_STREAM_END);
+				if (result < 0) // Less than 0 is error.
 				{
 					qWarning("Pillow::GunzipContentTransformer::transform: error inflating input stream passing original content through.");
 					_streamBad = true;
@@ -82,16 +85,27 @@ namespace Pillow
                     _inflatedBuffer.data_ptr()->size = 0;
                 else
                     _inflatedBuffer.clear();
-                _inflatedBuffer.append(data, length);
+                _inflatedBuffer.append(_undecoded).append(data, length);
 			}
 
+			// As long as nothing came out of it, the content may still turn out not to be decodable.
+			if (_streamBad || _streamEnded || _inflateStream.total_out > 0)
+				_undecoded.clear();
+			else
+				_undecoded.append(data, length);
+
 			return _inflatedBuffer;
 		}
 
+		QByteArray finish()
+		{
+			return _undecoded;
+		}
+
 	private:
 		z_stream _inflateStream;
-		QByteArray _inflatedBuffer;
-		bool _streamBad;
+		QByteArray _inflatedBuffer, _undecoded;
+		bool _streamBad, _streamEnded;
 	};
 #endif // PILLOW_ZLIB
 }
@@ -774,8 +788,19 @@ void Pillow::HttpClient::messageContent(const char *data, int length)
 
 void Pillow::HttpClient::messageComplete()
 {
-	delete _contentDecoder;
-	_contentDecoder = 0;
+	if (_contentDecoder)
+	{
+		const QByteArray left = _contentDecoder->finish();
+		delete _contentDecoder;
+		_contentDecoder = 0;
+
+		if (!left.isEmpty())
+		{
+			Pillow::HttpResponseParser::messageContent(left.data(), left.length());
+			emit contentReadyRead();
+			if (!_responsePending) return; // Got aborted in the callback.
+		}
+	}
 
 	if (isInterimResponse())
 	{
-- 
2.43.0


From 1538061bb4209347712a96c844f456a349a22d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:43 +0000
Subject: [PATCH 23/50] fix: refuse a response header line without a colon

---
 pillowcore/parser/http_parser.c | 12 ------------
 1 file changed, 12 deletions(-)

diff --git a/pillowcore/parser/http_parser.c b/pillowcore/parser/http_parser.c
index a1c9e70..22e01db 100644
--- a/pillowcore/parser/http_parser.c
+++ b/pillowcore/parser/http_parser.c
@@ -1338,18 +1338,6 @@ size_t http_parser_execute (http_parser *parser,
 		  break;
 		}
 
-		if (ch == CR) {
-		  parser->state = s_header_almost_done;
-		  CALLBACK_DATA(header_field);
-		  break;
-		}
-
-		if (ch == LF) {
-		  parser->state = s_header_field_start;
-		  CALLBACK_DATA(header_field);
-		  break;
-		}
-
 		SET_ERRNO(HPE_INVALID_HEADER_TOKEN);
 		goto error;
 	  }
-- 
2.43.0


From 2e5cc89fc467f7ef450ee2387ffb5af7b3c03fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:19 +0000
Subject: [PATCH 24/50] fix: put an IPv6 address in the Host header into
 brackets

---
 pillowcore/HttpClient.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index 0afa318..b932b05 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -717,6 +717,8 @@ void Pillow::HttpClient::sendRequest()
 	if (_hostHeaderValue.isEmpty())
 	{
         _hostHeaderValue = _request.url.encodedHost();
+		if (_hostHeaderValue.contains(':') && !_hostHeaderValue.startsWith('['))
+			_hostHeaderValue.prepend('[').append(']'); // An IPv6 address.
 		if (_request.url.port(80) != 80)
 		{
 			_hostHeaderValue.append(':');
-- 
2.43.0


From b856872162dfc216cbc2fc3956b9e78b24c13756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:27 +0000
Subject: [PATCH 25/50] fix: do not serve files of directories whose name
 merely begins like the public path

---
 pillowcore/HttpHandler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pillowcore/HttpHandler.cpp b/pillowcore/HttpHandler.cpp
index 6fa9dfc..fafc742 100644
--- a/pillowcore/HttpHandler.cpp
+++ b/pillowcore/HttpHandler.cpp
@@ -284,7 +284,7 @@ bool HttpHandlerFile::handleRequest(Pillow::HttpConnection *connection)
 	{
 		return false;
 	}
-	else if (!resultPathInfo.canonicalFilePath().startsWith(_publicPath))
+	else if (!resultPathInfo.canonicalFilePath().startsWith(_publicPath.endsWith('/') ? _publicPath : _publicPath + '/'))
 	{
 		return false; // Somebody tried to use some ".." or has followed symlinks that escaped out of the public path.
 	}
-- 
2.43.0


From e8d490fb1ed46ee011bea05a67edd9270205a5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:52 +0000
Subject: [PATCH 26/50] fix: never write the rest of a file into another
 response

---
 pillowcore/HttpHandler.cpp | 15 +++++++++++----
 pillowcore/HttpHandler.h   |  3 +++
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/pillowcore/HttpHandler.cpp b/pillowcore/HttpHandler.cpp
index fafc742..e76f0f5 100644
--- a/pillowcore/HttpHandler.cpp
+++ b/pillowcore/HttpHandler.cpp
@@ -325,12 +325,12 @@ bool HttpHandlerFile::handleRequest(Pillow::HttpConnection *connection)
 		{
 			// The file exceeds the buffer size and must be sent incrementally. Do send the headers right away.
 			headers << HttpHeader("Content-Length", QByteArray::number(file->size()));
-			connection->writeHeaders(200, headers);
-
+			// Note: the headers alone complete the response to a HEAD request; the transfer has to know about it.
 			HttpHandlerFileTransfer* transfer = new HttpHandlerFileTransfer(file, connection, bufferSize());
 			file->setParent(transfer);
 			//transfer->setParent(this);
 			connect(transfer, SIGNAL(finished()), transfer, SLOT(deleteLater()));
+			connection->writeHeaders(200, headers);
 			transfer->writeNextPayload();
 		}
 	}
@@ -352,8 +352,8 @@ HttpHandlerFileTransfer::HttpHandlerFileTransfer(QIODevice *sourceDevice, HttpCo
 	}
 
 	connect(sourceDevice, SIGNAL(destroyed()), this, SLOT(deleteLater()));
-	connect(_connection, SIGNAL(requestCompleted(Pillow::HttpConnection*)), this, SLOT(deleteLater()));
-	connect(_connection, SIGNAL(closed(Pillow::HttpConnection*)), this, SLOT(deleteLater()));
+	connect(_connection, SIGNAL(requestCompleted(Pillow::HttpConnection*)), this, SLOT(stop()));
+	connect(_connection, SIGNAL(closed(Pillow::HttpConnection*)), this, SLOT(stop()));
 	connect(_connection, SIGNAL(destroyed()), this, SLOT(deleteLater()));
 	connect(_connection->outputDevice(), SIGNAL(bytesWritten(qint64)), this, SLOT(writeNextPayload()), Qt::QueuedConnection);
 }
@@ -375,3 +375,10 @@ void HttpHandlerFileTransfer::writeNextPayload()
 			emit finished();
 	}
 }
+
+void HttpHandlerFileTransfer::stop()
+{
+	// Never write into whatever the connection does next.
+	_connection = NULL;
+	deleteLater();
+}
diff --git a/pillowcore/HttpHandler.h b/pillowcore/HttpHandler.h
index 5f26961..b423e75 100644
--- a/pillowcore/HttpHandler.h
+++ b/pillowcore/HttpHandler.h
@@ -211,6 +211,9 @@ namespace Pillow
 	public slots:
 		void writeNextPayload();
 
+	private slots:
+		void stop();
+
 	signals:
 		void finished();
 	};
-- 
2.43.0


From d6ed631fb27303f6cb375c519948f80c43670e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:49 +0000
Subject: [PATCH 27/50] fix: do not serve a file for a path that goes on behind
 a NUL byte

---
 pillowcore/HttpHandler.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pillowcore/HttpHandler.cpp b/pillowcore/HttpHandler.cpp
index e76f0f5..1e790a7 100644
--- a/pillowcore/HttpHandler.cpp
+++ b/pillowcore/HttpHandler.cpp
@@ -276,7 +276,9 @@ bool HttpHandlerFile::handleRequest(Pillow::HttpConnection *connection)
 {
 	if (_publicPath.isEmpty()) { return false; } // Just don't allow access to the root filesystem unless really configured for it.
 
-	QString requestPath = QByteArray::fromPercentEncoding(connection->requestPath());
+	const QByteArray decodedPath = QByteArray::fromPercentEncoding(connection->requestPath());
+	if (decodedPath.contains('\0')) { return false; } // No file has such a name.
+	QString requestPath = decodedPath;
 	QString resultPath = _publicPath + requestPath;
 	QFileInfo resultPathInfo(resultPath);
 
-- 
2.43.0


From 67474db50a0eaf0c44c77be89dcedcf11384be55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:03 +0000
Subject: [PATCH 28/50] fix: a router does not take requests that the matched
 route declines

---
 pillowcore/HttpHandlerSimpleRouter.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pillowcore/HttpHandlerSimpleRouter.cpp b/pillowcore/HttpHandlerSimpleRouter.cpp
index 6a7363c..b196130 100644
--- a/pillowcore/HttpHandlerSimpleRouter.cpp
+++ b/pillowcore/HttpHandlerSimpleRouter.cpp
@@ -250,8 +250,7 @@ bool HttpHandlerSimpleRouter::handleRequest(Pillow::HttpConnection *request)
 			{
 				for (int i = 0, iE = route->paramNames.size(); i < iE; ++i)
 					request->setRequestParam(route->paramNames.at(i), route->regExp.cap(i + 1));
-				route->invoke(request);
-				return true;
+				return route->invoke(request);
 			}
 		}
 	}
-- 
2.43.0


From c5c945c7a853a529b7768cea9958da20d546e92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:49 +0000
Subject: [PATCH 29/50] fix: bind route parameters to the right values when a
 splat precedes a parameter

---
 pillowcore/HttpHandlerSimpleRouter.cpp | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/pillowcore/HttpHandlerSimpleRouter.cpp b/pillowcore/HttpHandlerSimpleRouter.cpp
index b196130..fe6aa15 100644
--- a/pillowcore/HttpHandlerSimpleRouter.cpp
+++ b/pillowcore/HttpHandlerSimpleRouter.cpp
@@ -192,31 +192,24 @@ QRegExp Pillow::HttpHandlerSimpleRouter::pathToRegExp(const QString &p, QStringL
 {
 	QString path = p;
 
-	QRegExp paramRegex(":(\\w+)"); QString paramReplacement("([\\w_-]+)");
+	// Collect the names in the order in which they appear: their values are captured by position.
+	QRegExp nameRegex("[:*](\\w+)");
 	QStringList paramNames;
 	int pos = 0;
 	while (pos >= 0)
 	{
-		pos = paramRegex.indexIn(path, pos);
+		pos = nameRegex.indexIn(path, pos);
 		if (pos >= 0)
 		{
-			paramNames << paramRegex.cap(1);
-			pos += paramRegex.matchedLength();
+			paramNames << nameRegex.cap(1);
+			pos += nameRegex.matchedLength();
 		}
 	}
+
+	QRegExp paramRegex(":(\\w+)"); QString paramReplacement("([\\w_-]+)");
 	path.replace(paramRegex, paramReplacement);
 
 	QRegExp splatRegex("\\*(\\w+)"); QString splatReplacement("(.*)");
-	pos = 0;
-	while (pos >= 0)
-	{
-		pos = splatRegex.indexIn(path, pos);
-		if (pos >= 0)
-		{
-			paramNames << splatRegex.cap(1);
-			pos += splatRegex.matchedLength();
-		}
-	}
 	path.replace(splatRegex, splatReplacement);
 
 	if (outParamNames)
-- 
2.43.0


From 8b046da7488e6c93e5e1f88e9a08e81c2a5e1d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:06 +0000
Subject: [PATCH 30/50] fix: routes to invokable methods given by signature

---
 pillowcore/HttpHandlerSimpleRouter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pillowcore/HttpHandlerSimpleRouter.cpp b/pillowcore/HttpHandlerSimpleRouter.cpp
index fe6aa15..18afd25 100644
--- a/pillowcore/HttpHandlerSimpleRouter.cpp
+++ b/pillowcore/HttpHandlerSimpleRouter.cpp
@@ -143,7 +143,7 @@ void HttpHandlerSimpleRouter::addRoute(const QByteArray& method, const QString&
 		member++;
 	}
 	int methodIndex = object->metaObject()->indexOfSlot(member);
-	if (methodIndex == -1) object->metaObject()->indexOfMethod(member);
+	if (methodIndex == -1) methodIndex = object->metaObject()->indexOfMethod(member);
 
 	if (methodIndex == -1)
 	{
-- 
2.43.0


From 6fc41735924f20fd39b54355681536adea1c9c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:06 +0000
Subject: [PATCH 31/50] fix: log URIs with percent escapes as they are

---
 pillowcore/HttpHandler.cpp | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/pillowcore/HttpHandler.cpp b/pillowcore/HttpHandler.cpp
index 1e790a7..d251773 100644
--- a/pillowcore/HttpHandler.cpp
+++ b/pillowcore/HttpHandler.cpp
@@ -156,9 +156,9 @@ bool HttpHandlerLog::handleRequest(Pillow::HttpConnection *connection)
 	else if (_mode == TraceRequests)
 	{
 		QString logEntry = QString("[BEGIN] %1 - - [%2] \"%3 %4 %5\" - - -")
-				.arg(connection->remoteAddress().toString())
-				.arg(QDateTime::currentDateTime().toString("dd/MMM/yyyy hh:mm:ss"))
-				.arg(QString(connection->requestMethod())).arg(QString(connection->requestUri())).arg(QString(connection->requestHttpVersion()));
+				.arg(connection->remoteAddress().toString(),
+					 QDateTime::currentDateTime().toString("dd/MMM/yyyy hh:mm:ss"),
+					 QString(connection->requestMethod()), QString(connection->requestUri()), QString(connection->requestHttpVersion()));
 
 		log(logEntry);
 	}
@@ -175,11 +175,11 @@ void HttpHandlerLog::requestCompleted(Pillow::HttpConnection *connection)
 
 		qint64 elapsed = timer->elapsed();
 		QString logEntry = QString(formatString)
-				.arg(connection->remoteAddress().toString())
-				.arg(QDateTime::currentDateTime().toString("dd/MMM/yyyy hh:mm:ss"))
-				.arg(QString(connection->requestMethod())).arg(QString(connection->requestUri())).arg(QString(connection->requestHttpVersion()))
-				.arg(connection->responseStatusCode()).arg(connection->responseContentLength())
-				.arg(elapsed / 1000.0, 3, 'f', 3);
+				.arg(connection->remoteAddress().toString(),
+					 QDateTime::currentDateTime().toString("dd/MMM/yyyy hh:mm:ss"),
+					 QString(connection->requestMethod()), QString(connection->requestUri()), QString(connection->requestHttpVersion()),
+					 QString::number(connection->responseStatusCode()), QString::number(connection->responseContentLength()),
+					 QString::number(elapsed / 1000.0, 'f', 3));
 
 		log(logEntry);
 	}
@@ -194,11 +194,11 @@ void HttpHandlerLog::requestClosed(HttpConnection *connection)
 
 		qint64 elapsed = timer->elapsed();
 		QString logEntry = QString(formatString)
-				.arg(connection->remoteAddress().toString())
-				.arg(QDateTime::currentDateTime().toString("dd/MMM/yyyy hh:mm:ss"))
-				.arg(QString(connection->requestMethod())).arg(QString(connection->requestUri())).arg(QString(connection->requestHttpVersion()))
-				.arg(connection->responseStatusCode()).arg(connection->responseContentLength())
-				.arg(elapsed / 1000.0, 3, 'f', 3);
+				.arg(connection->remoteAddress().toString(),
+					 QDateTime::currentDateTime().toString("dd/MMM/yyyy hh:mm:ss"),
+					 QString(connection->requestMethod()), QString(connection->requestUri()), QString(connection->requestHttpVersion()),
+					 QString::number(connection->responseStatusCode()), QString::number(connection->responseContentLength()),
+					 QString::number(elapsed / 1000.0, 'f', 3));
 
 		log(logEntry);
 	}
-- 
2.43.0


From a25feea884c5692b8d4860dca46dfb85ba466513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:07 +0000
Subject: [PATCH 32/50] fix: the log does not read request data that the
 connection has released

---
 pillowcore/HttpHandler.cpp | 45 ++++++++++++++++++++++++--------------
 pillowcore/HttpHandler.h   |  3 ++-
 2 files changed, 31 insertions(+), 17 deletions(-)

diff --git a/pillowcore/HttpHandler.cpp b/pillowcore/HttpHandler.cpp
index d251773..9bd0cdc 100644
--- a/pillowcore/HttpHandler.cpp
+++ b/pillowcore/HttpHandler.cpp
@@ -116,6 +116,18 @@ bool HttpHandlerFunction::handleRequest(HttpConnection *connection)
 // HttpHandlerLog
 //
 
+struct HttpHandlerLog::Request
+{
+	QElapsedTimer timer;
+	QByteArray method, uri, httpVersion;
+};
+
+// The request data of a connection are only valid until its request is completed.
+static inline QByteArray deepCopy(const QByteArray &data)
+{
+	return QByteArray(data.constData(), data.size());
+}
+
 HttpHandlerLog::HttpHandlerLog(QObject *parent)
 	: HttpHandler(parent), _mode(LogCompletedRequests), _device(0)
 {
@@ -133,21 +145,23 @@ HttpHandlerLog::HttpHandlerLog(QIODevice *device, QObject *parent)
 
 HttpHandlerLog::~HttpHandlerLog()
 {
-	foreach (QElapsedTimer* timer, _requestTimerMap)
-		delete timer;
+	qDeleteAll(_requestMap);
 }
 
 bool HttpHandlerLog::handleRequest(Pillow::HttpConnection *connection)
 {
-	QElapsedTimer* timer = _requestTimerMap.value(connection, NULL);
-	if (timer == NULL)
+	Request* request = _requestMap.value(connection, NULL);
+	if (request == NULL)
 	{
-		timer = _requestTimerMap[connection] = new QElapsedTimer();
+		request = _requestMap[connection] = new Request();
 		connect(connection, SIGNAL(requestCompleted(Pillow::HttpConnection*)), this, SLOT(requestCompleted(Pillow::HttpConnection*)));
 		connect(connection, SIGNAL(closed(Pillow::HttpConnection*)), this, SLOT(requestClosed(Pillow::HttpConnection*)));
 		connect(connection, SIGNAL(destroyed(QObject*)), this, SLOT(requestDestroyed(QObject*)));
 	}
-	timer->start();
+	request->timer.start();
+	request->method = deepCopy(connection->requestMethod());
+	request->uri = deepCopy(connection->requestUri());
+	request->httpVersion = deepCopy(connection->requestHttpVersion());
 
 	if (_mode == LogCompletedRequests)
 	{
@@ -168,16 +182,16 @@ bool HttpHandlerLog::handleRequest(Pillow::HttpConnection *connection)
 
 void HttpHandlerLog::requestCompleted(Pillow::HttpConnection *connection)
 {
-	QElapsedTimer* timer = _requestTimerMap.value(connection, NULL);
-	if (timer)
+	Request* request = _requestMap.value(connection, NULL);
+	if (request)
 	{
 		const char* formatString = (_mode == LogCompletedRequests) ? "%1 - - [%2] \"%3 %4 %5\" %6 %7 %8" : "[ END ] %1 - - [%2] \"%3 %4 %5\" %6 %7 %8";
 
-		qint64 elapsed = timer->elapsed();
+		qint64 elapsed = request->timer.elapsed();
 		QString logEntry = QString(formatString)
 				.arg(connection->remoteAddress().toString(),
 					 QDateTime::currentDateTime().toString("dd/MMM/yyyy hh:mm:ss"),
-					 QString(connection->requestMethod()), QString(connection->requestUri()), QString(connection->requestHttpVersion()),
+					 QString(request->method), QString(request->uri), QString(request->httpVersion),
 					 QString::number(connection->responseStatusCode()), QString::number(connection->responseContentLength()),
 					 QString::number(elapsed / 1000.0, 'f', 3));
 
@@ -187,16 +201,16 @@ void HttpHandlerLog::requestCompleted(Pillow::HttpConnection *connection)
 
 void HttpHandlerLog::requestClosed(HttpConnection *connection)
 {
-	QElapsedTimer* timer = _requestTimerMap.value(connection, NULL);
-	if (timer && _mode == TraceRequests)
+	Request* request = _requestMap.value(connection, NULL);
+	if (request && _mode == TraceRequests)
 	{
 		const char* formatString = "[CLOSE] %1 - - [%2] \"%3 %4 %5\" %6 %7 %8";
 
-		qint64 elapsed = timer->elapsed();
+		qint64 elapsed = request->timer.elapsed();
 		QString logEntry = QString(formatString)
 				.arg(connection->remoteAddress().toString(),
 					 QDateTime::currentDateTime().toString("dd/MMM/yyyy hh:mm:ss"),
-					 QString(connection->requestMethod()), QString(connection->requestUri()), QString(connection->requestHttpVersion()),
+					 QString(request->method), QString(request->uri), QString(request->httpVersion),
 					 QString::number(connection->responseStatusCode()), QString::number(connection->responseContentLength()),
 					 QString::number(elapsed / 1000.0, 'f', 3));
 
@@ -207,8 +221,7 @@ void HttpHandlerLog::requestClosed(HttpConnection *connection)
 void HttpHandlerLog::requestDestroyed(QObject *r)
 {
 	HttpConnection* connection = static_cast<HttpConnection*>(r);
-	delete _requestTimerMap.value(connection, NULL);
-	_requestTimerMap.remove(connection);
+	delete _requestMap.take(connection);
 }
 
 void HttpHandlerLog::log(const QString &entry)
diff --git a/pillowcore/HttpHandler.h b/pillowcore/HttpHandler.h
index b423e75..d1aba7d 100644
--- a/pillowcore/HttpHandler.h
+++ b/pillowcore/HttpHandler.h
@@ -163,7 +163,8 @@ namespace Pillow
 		void log(const QString& entry);
 
 	private:
-		QHash<Pillow::HttpConnection*, QElapsedTimer*> _requestTimerMap;
+		struct Request; // What the log has to know about the last request of a connection, after the connection forgot it.
+		QHash<Pillow::HttpConnection*, Request*> _requestMap;
 		Mode _mode;
 		QPointer<QIODevice> _device;
 	};
-- 
2.43.0


From cdab28f8839b1e0d7c8d62da109eb339a7032abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:42 +0000
Subject: [PATCH 33/50] fix: re-use of a connection object after a large
 request crashed

---
 pillowcore/HttpConnection.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pillowcore/HttpConnection.cpp b/pillowcore/HttpConnection.cpp
index ef6096d..0059b63 100644
--- a/pillowcore/HttpConnection.cpp
+++ b/pillowcore/HttpConnection.cpp
@@ -146,7 +146,7 @@ inline void Pillow::HttpConnectionPrivate::initialize()
 
 	// Clear any leftover data from a previous potentially failed request (that would not have gone though "transitionToCompleted")
 	if (_requestBuffer.capacity() <= Pillow::HttpConnection::MaximumRequestHeaderLength) _requestBuffer.data_ptr()->size = 0;
-	else _requestBuffer.clear();
+	else { _requestBuffer.clear(); _requestBuffer.detach(); } // Never leave the global shared null there: its internal data must not be written to.
 	_requestHeadersRef.clear();
 	if (_requestParams.capacity() > 16) _requestParams.clear();
 	else while(!_requestParams.isEmpty()) _requestParams.pop_back();
@@ -350,7 +350,7 @@ inline void Pillow::HttpConnectionPrivate::transitionToCompleted()
 	int remainingBytes = _requestBuffer.size() - int(_parser.body_start) - _requestContentLength;
 	if (remainingBytes > 0) _requestBuffer = _requestBuffer.right(remainingBytes);
 	else if (_requestBuffer.capacity() <= Pillow::HttpConnection::MaximumRequestHeaderLength) _requestBuffer.data_ptr()->size = 0;
-	else _requestBuffer.clear();
+	else { _requestBuffer.clear(); _requestBuffer.detach(); } // Never leave the global shared null there: its internal data must not be written to.
 
 	_requestHeadersRef.clear();
 
-- 
2.43.0


From 6e8bcb42efc8ab5b5f0bc1df27843c1bb24cb9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:53 +0000
Subject: [PATCH 34/50] fix: appending an HttpHeaderCollection to itself wrote
 out of bounds

---
 pillowcore/HttpHeader.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pillowcore/HttpHeader.cpp b/pillowcore/HttpHeader.cpp
index ac67e31..c16db47 100644
--- a/pillowcore/HttpHeader.cpp
+++ b/pillowcore/HttpHeader.cpp
@@ -52,12 +52,13 @@ void Pillow::HttpHeader::setFromRawHeader(const char *rawHeader, int len)
 
 Pillow::HttpHeaderCollection &Pillow::HttpHeaderCollection::operator+=(const QVector<HttpHeader> &l)
 {
+	const QVector<HttpHeader> added(l); // l may be this very collection, which is about to grow.
 	int oldSize = size();
-	resize(size() + l.size());
+	resize(size() + added.size());
 
 	Pillow::HttpHeader *dest = begin() + oldSize;
-	const Pillow::HttpHeader *src = l.begin();
-	const Pillow::HttpHeader *srcE = l.end();
+	const Pillow::HttpHeader *src = added.begin();
+	const Pillow::HttpHeader *srcE = added.end();
 	while (src != srcE)
 		*(dest++) = *(src++);
 
-- 
2.43.0


From 459e36bfb5daa858739789b573a9b7c587d85c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:14 +0000
Subject: [PATCH 35/50] fix: NetworkAccessManager replies kept only the last of
 several header fields of one name

---
 pillowcore/HttpClient.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index b932b05..ea883e9 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -879,7 +879,11 @@ namespace Pillow
 
 			foreach (const Pillow::HttpHeader &header, _client->headers())
 			{
-				setRawHeader(header.first, header.second);
+				// A field that comes several times is one field whose values are joined (setRawHeader replaces).
+				if (hasRawHeader(header.first))
+					setRawHeader(header.first, rawHeader(header.first) + ", " + header.second);
+				else
+					setRawHeader(header.first, header.second);
 
 				if (Pillow::ByteArrayHelpers::asciiEqualsCaseInsensitive(header.first, Pillow::LowerCaseToken("set-cookie")))
 					cookies += QNetworkCookie::parseCookies(header.second);
-- 
2.43.0


From d7666aae9804b22efbabebc74308c166a739a8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:14 +0000
Subject: [PATCH 36/50] fix: aborting a failed network reply from its error
 notification could abort another reply

---
 pillowcore/HttpClient.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pillowcore/HttpClient.cpp b/pillowcore/HttpClient.cpp
index ea883e9..f860d9f 100644
--- a/pillowcore/HttpClient.cpp
+++ b/pillowcore/HttpClient.cpp
@@ -922,11 +922,15 @@ namespace Pillow
 		{
 			disconnect(_client, 0, this, 0);
 
-			if (_client->error() != Pillow::HttpClient::NoError)
+			// From here on the client may already be serving another reply.
+			const Pillow::HttpClient::Error clientError = _client->error();
+			_client = 0;
+
+			if (clientError != Pillow::HttpClient::NoError)
 			{
 				QNetworkReply::NetworkError error = QNetworkReply::UnknownNetworkError;
 
-				switch (_client->error())
+				switch (clientError)
 				{
 				case Pillow::HttpClient::NoError: error = QNetworkReply::NoError; break;
 				case Pillow::HttpClient::NetworkError: error = QNetworkReply::UnknownNetworkError; break;
@@ -939,7 +943,6 @@ namespace Pillow
 				emit this->error(error);
 			}
 
-			_client = 0;
 			setFinished(true);
 			emit finished();
 		}
-- 
2.43.0


From fee3e8e9c5f5b137ea2416d845a8c3d33dd51f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:33 +0000
Subject: [PATCH 37/50] fix: proxied responses of unknown length were cut off
 instead of ended

HttpHandlerProxy closed the client's connection at the end of a response
without a content length: a chunked response never got its last chunk, and
what had not been flushed yet (up to the whole response) was discarded.
---
 pillowcore/HttpHandlerProxy.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pillowcore/HttpHandlerProxy.cpp b/pillowcore/HttpHandlerProxy.cpp
index 7ed6b73..4b240ee 100644
--- a/pillowcore/HttpHandlerProxy.cpp
+++ b/pillowcore/HttpHandlerProxy.cpp
@@ -141,8 +141,11 @@ void Pillow::HttpHandlerProxyPipe::proxiedReply_finished()
 		if (!_broken && _request->state() == Pillow::HttpConnection::SendingContent)
 		{
 			// The client request will still be in this state if the content-length was not specified. We must
-			// close the connection to indicate the end of the content stream.
-			_request->close();
+			// indicate the end of the content stream: by a last chunk, or else by closing the connection once
+			// everything has been sent.
+			_request->endContent(); // Can cause the pipe to tear down.
+			if (!_broken && _request->state() == Pillow::HttpConnection::SendingContent)
+				_request->close();
 		}
 	}
 	else
-- 
2.43.0


From 46f9d16e9e8e6e14cd00664ab92c519331ad7ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:33 +0000
Subject: [PATCH 38/50] fix: clients hung when a proxied response broke off

When the proxied server failed after the response headers had been passed on,
HttpHandlerProxy neither finished nor closed the client's connection.
---
 pillowcore/HttpHandlerProxy.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pillowcore/HttpHandlerProxy.cpp b/pillowcore/HttpHandlerProxy.cpp
index 4b240ee..ae29865 100644
--- a/pillowcore/HttpHandlerProxy.cpp
+++ b/pillowcore/HttpHandlerProxy.cpp
@@ -155,6 +155,11 @@ void Pillow::HttpHandlerProxyPipe::proxiedReply_finished()
 			// Finishing before sending headers means that we have a network or transport error. Let the client know about this.
 			_request->writeResponse(503);
 		}
+		else if (!_broken && _request->state() == Pillow::HttpConnection::SendingContent)
+		{
+			// The response broke off. All that is left is to let the client know that it will not get the rest of it.
+			_request->close();
+		}
 	}
 }
 
-- 
2.43.0


From 0d037d07398b41af5407c137e82cb594b44fc586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:33 +0000
Subject: [PATCH 39/50] fix: proxied error responses were replaced by 503 or
 left unfinished

QNetworkReply reports an HTTP status of 400 and above as an error. An error
response without content became a 503 response without its headers, and one
with content of unknown length was never ended.
---
 pillowcore/HttpHandlerProxy.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/pillowcore/HttpHandlerProxy.cpp b/pillowcore/HttpHandlerProxy.cpp
index ae29865..c411e62 100644
--- a/pillowcore/HttpHandlerProxy.cpp
+++ b/pillowcore/HttpHandlerProxy.cpp
@@ -132,9 +132,22 @@ void Pillow::HttpHandlerProxyPipe::proxiedReply_readyRead()
 	if (!_broken) pump(_proxiedReply->readAll());
 }
 
+// Responses with an HTTP error status are reported as an error by QNetworkReply too, although they were received properly.
+static bool hasCompleteResponse(QNetworkReply* reply)
+{
+	const int error = reply->error();
+	if (error == QNetworkReply::NoError) return true;
+	if (reply->attribute(QNetworkRequest::HttpStatusCodeAttribute).toInt() < 400) return false;
+
+	return (error >= QNetworkReply::ContentAccessDenied && error <= QNetworkReply::UnknownContentError && error != QNetworkReply::ContentReSendError)
+			|| error == QNetworkReply::ProxyAuthenticationRequiredError
+			|| error == QNetworkReply::ProtocolInvalidOperationError
+			|| (error > QNetworkReply::ProtocolFailure && error < 500); // The HTTP 5xx errors.
+}
+
 void Pillow::HttpHandlerProxyPipe::proxiedReply_finished()
 {
-	if (_proxiedReply->error() == QNetworkReply::NoError)
+	if (hasCompleteResponse(_proxiedReply))
 	{
 		sendHeaders(); // Make sure headers have been sent; can cause the pipe to tear down.
 
-- 
2.43.0


From 2076bb4b780049acc3a93ffcf9404d95cfd12e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:33 +0000
Subject: [PATCH 40/50] fix: proxied HEAD requests waited for content that
 never comes

Sent as a custom verb, the network access manager expected the response to a
HEAD request to carry as much content as its Content-Length says.
---
 pillowcore/HttpHandlerProxy.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pillowcore/HttpHandlerProxy.cpp b/pillowcore/HttpHandlerProxy.cpp
index c411e62..4d1d406 100644
--- a/pillowcore/HttpHandlerProxy.cpp
+++ b/pillowcore/HttpHandlerProxy.cpp
@@ -53,7 +53,10 @@ QNetworkReply * Pillow::HttpHandlerProxy::createProxiedReply(Pillow::HttpConnect
 		requestContentBuffer->open(QIODevice::ReadOnly);
 	}
 
-	QNetworkReply* proxiedReply = _networkAccessManager->sendCustomRequest(proxiedRequest, request->requestMethod(), requestContentBuffer);
+	// The response to a HEAD request has no content whatever its headers say: it can not be sent as just a custom verb.
+	QNetworkReply* proxiedReply = request->requestMethod() == "HEAD"
+			? _networkAccessManager->head(proxiedRequest)
+			: _networkAccessManager->sendCustomRequest(proxiedRequest, request->requestMethod(), requestContentBuffer);
 
 	if (requestContentBuffer) requestContentBuffer->setParent(proxiedReply);
 
-- 
2.43.0


From 7530f35fe9a02e3e093ac76b734737458d9defb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:33 +0000
Subject: [PATCH 41/50] fix: proxied requests kept only the last of repeated
 header fields

QNetworkRequest holds one value per header field name: repeated fields are now
joined into one, as HTTP allows.
---
 pillowcore/HttpHandlerProxy.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pillowcore/HttpHandlerProxy.cpp b/pillowcore/HttpHandlerProxy.cpp
index 4d1d406..784b58a 100644
--- a/pillowcore/HttpHandlerProxy.cpp
+++ b/pillowcore/HttpHandlerProxy.cpp
@@ -37,7 +37,12 @@ bool Pillow::HttpHandlerProxy::handleRequest(Pillow::HttpConnection *request)
 
 	QNetworkRequest proxiedRequest(targetUrl);
 	foreach (const Pillow::HttpHeader& header, request->requestHeaders())
-		proxiedRequest.setRawHeader(header.first, header.second);
+	{
+		QByteArray value = header.second;
+		if (proxiedRequest.hasRawHeader(header.first))
+			value.prepend(qstricmp(header.first, "Cookie") == 0 ? "; " : ", ").prepend(proxiedRequest.rawHeader(header.first));
+		proxiedRequest.setRawHeader(header.first, value);
+	}
 
 	createPipe(request, createProxiedReply(request, proxiedRequest));
 
-- 
2.43.0


From badaa3adfce9bba9b5d50a8d8fb4e9cb47fc8e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:33 +0000
Subject: [PATCH 42/50] fix: proxied responses could be decompressed yet
 labelled as compressed

For a client that sent no Accept-Encoding header the network access manager
asked for gzip on its own and decoded the content, while the response passed on
to the client still said Content-Encoding: gzip.
---
 pillowcore/HttpHandlerProxy.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pillowcore/HttpHandlerProxy.cpp b/pillowcore/HttpHandlerProxy.cpp
index 784b58a..96b0665 100644
--- a/pillowcore/HttpHandlerProxy.cpp
+++ b/pillowcore/HttpHandlerProxy.cpp
@@ -44,6 +44,10 @@ bool Pillow::HttpHandlerProxy::handleRequest(Pillow::HttpConnection *request)
 		proxiedRequest.setRawHeader(header.first, value);
 	}
 
+	// The response is passed on as it is, so its content must not be decoded on the way.
+	if (!proxiedRequest.hasRawHeader("Accept-Encoding"))
+		proxiedRequest.setRawHeader("Accept-Encoding", "identity");
+
 	createPipe(request, createProxiedReply(request, proxiedRequest));
 
 	return true;
-- 
2.43.0


From 4bcd03f2d5d68b96438f59857cde77af311eea34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:33 +0000
Subject: [PATCH 43/50] fix: the proxy handler mixed up the cookies of its
 clients

Cookies set by the proxied server for one client went to a jar shared by all
clients, whose own cookies they replaced in all later requests.
---
 pillowcore/HttpHandlerProxy.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pillowcore/HttpHandlerProxy.cpp b/pillowcore/HttpHandlerProxy.cpp
index 96b0665..51e5ce2 100644
--- a/pillowcore/HttpHandlerProxy.cpp
+++ b/pillowcore/HttpHandlerProxy.cpp
@@ -44,6 +44,11 @@ bool Pillow::HttpHandlerProxy::handleRequest(Pillow::HttpConnection *request)
 		proxiedRequest.setRawHeader(header.first, value);
 	}
 
+	// Cookies and credentials are up to the client: those of one must not be used for the requests of another.
+	proxiedRequest.setAttribute(QNetworkRequest::CookieLoadControlAttribute, QNetworkRequest::Manual);
+	proxiedRequest.setAttribute(QNetworkRequest::CookieSaveControlAttribute, QNetworkRequest::Manual);
+	proxiedRequest.setAttribute(QNetworkRequest::AuthenticationReuseAttribute, QNetworkRequest::Manual);
+
 	// The response is passed on as it is, so its content must not be decoded on the way.
 	if (!proxiedRequest.hasRawHeader("Accept-Encoding"))
 		proxiedRequest.setRawHeader("Accept-Encoding", "identity");
-- 
2.43.0


From f4b2216ff6bc507a73bb2440d4e0d34269376329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:33 +0000
Subject: [PATCH 44/50] fix: several proxied Set-Cookie headers were passed on
 as a malformed one

QNetworkReply joins them with line feeds.
---
 pillowcore/HttpHandlerProxy.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pillowcore/HttpHandlerProxy.cpp b/pillowcore/HttpHandlerProxy.cpp
index 51e5ce2..88d10dd 100644
--- a/pillowcore/HttpHandlerProxy.cpp
+++ b/pillowcore/HttpHandlerProxy.cpp
@@ -134,7 +134,16 @@ void Pillow::HttpHandlerProxyPipe::sendHeaders()
 	QList<QPair<QByteArray, QByteArray> > headerList = _proxiedReply->rawHeaderPairs();
 	Pillow::HttpHeaderCollection headers; headers.reserve(headerList.size());
 	for (int i = 0, iE = headerList.size(); i < iE; ++i)
-		headers << headerList.at(i);
+	{
+		if (qstricmp(headerList.at(i).first, "Set-Cookie") == 0)
+		{
+			// Several of these come joined by line feeds, but they must remain separate header fields.
+			foreach (const QByteArray& cookie, headerList.at(i).second.split('\n'))
+				headers << Pillow::HttpHeader(headerList.at(i).first, cookie);
+		}
+		else
+			headers << headerList.at(i);
+	}
 	_request->writeHeaders(statusCode, headers);
 }
 
-- 
2.43.0


From 52903632a34cefe074012e2ecf8f5e94a60dd5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:33 +0000
Subject: [PATCH 45/50] fix: escapes in proxied request paths were escaped
 again

QUrl::setEncodedPath takes the path as if it had no escapes: a request for
/a%20b was passed on as one for /a%2520b.
---
 pillowcore/HttpHandlerProxy.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pillowcore/HttpHandlerProxy.cpp b/pillowcore/HttpHandlerProxy.cpp
index 88d10dd..4ffd2d2 100644
--- a/pillowcore/HttpHandlerProxy.cpp
+++ b/pillowcore/HttpHandlerProxy.cpp
@@ -30,10 +30,16 @@ bool Pillow::HttpHandlerProxy::handleRequest(Pillow::HttpConnection *request)
 {
 	if (_proxiedUrl.isEmpty()) return false;
 
-	QUrl targetUrl = _proxiedUrl;
-	targetUrl.setEncodedPath(request->requestPath());
-	if (!request->requestQueryString().isEmpty()) targetUrl.setEncodedQuery(request->requestQueryString());
-	if (!request->requestFragment().isEmpty()) targetUrl.setEncodedFragment(request->requestFragment());
+	QByteArray encodedTargetUrl = _proxiedUrl.toEncoded(QUrl::RemovePath | QUrl::RemoveQuery | QUrl::RemoveFragment);
+	if (request->requestUri().startsWith('/'))
+	{
+		foreach (char c, request->requestUri())
+		{
+			if (uchar(c) < 0x80) encodedTargetUrl.append(c);
+			else encodedTargetUrl.append('%').append(QByteArray(1, c).toHex().toUpper()); // Not necessarily UTF-8.
+		}
+	}
+	const QUrl targetUrl = QUrl::fromEncoded(encodedTargetUrl);
 
 	QNetworkRequest proxiedRequest(targetUrl);
 	foreach (const Pillow::HttpHeader& header, request->requestHeaders())
-- 
2.43.0


From 40215b43ee4886d51a0cf819947bf805881917c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:19 +0000
Subject: [PATCH 46/50] fix: proxied 304 responses with a Content-Length header
 were lost

They have no content whatever that header says: the client's request waited for
it, and its connection was closed with nothing sent.
---
 pillowcore/HttpHandlerProxy.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pillowcore/HttpHandlerProxy.cpp b/pillowcore/HttpHandlerProxy.cpp
index 4ffd2d2..b08985e 100644
--- a/pillowcore/HttpHandlerProxy.cpp
+++ b/pillowcore/HttpHandlerProxy.cpp
@@ -137,6 +137,7 @@ void Pillow::HttpHandlerProxyPipe::sendHeaders()
 
 	// Headers have not been sent yet. Do so now.
 	int statusCode = _proxiedReply->attribute(QNetworkRequest::HttpStatusCodeAttribute).toInt();
+	const bool hasNoContent = statusCode == 204 || statusCode == 304;
 	QList<QPair<QByteArray, QByteArray> > headerList = _proxiedReply->rawHeaderPairs();
 	Pillow::HttpHeaderCollection headers; headers.reserve(headerList.size());
 	for (int i = 0, iE = headerList.size(); i < iE; ++i)
@@ -147,6 +148,8 @@ void Pillow::HttpHandlerProxyPipe::sendHeaders()
 			foreach (const QByteArray& cookie, headerList.at(i).second.split('\n'))
 				headers << Pillow::HttpHeader(headerList.at(i).first, cookie);
 		}
+		else if (hasNoContent && qstricmp(headerList.at(i).first, "Content-Length") == 0)
+			continue; // There is no such content to follow.
 		else
 			headers << headerList.at(i);
 	}
-- 
2.43.0


From ac9f39d1a5bad09c31ee1ec7163a82a4b2fabbc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:14 +0000
Subject: [PATCH 47/50] fix: content given as a string by scripts was sent
 empty

---
 pillowcore/HttpHandlerQtScript.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pillowcore/HttpHandlerQtScript.cpp b/pillowcore/HttpHandlerQtScript.cpp
index 2635367..41606f5 100644
--- a/pillowcore/HttpHandlerQtScript.cpp
+++ b/pillowcore/HttpHandlerQtScript.cpp
@@ -26,6 +26,17 @@ static void fromScriptValue(const QScriptValue &obj, Pillow::HttpHeaderCollectio
 	}
 }
 
+// Lets scripts pass strings where bytes are expected, such as writeContent("text").
+static QScriptValue bytesToScriptValue(QScriptEngine *engine, const QByteArray &bytes)
+{
+	return engine->newVariant(bytes);
+}
+
+static void bytesFromScriptValue(const QScriptValue &value, QByteArray &bytes)
+{
+	bytes = value.isString() ? value.toString().toUtf8() : value.toVariant().toByteArray();
+}
+
 static void registerMarshallers(QScriptEngine* engine)
 {
 	if (engine == NULL) return;
@@ -33,6 +44,7 @@ static void registerMarshallers(QScriptEngine* engine)
 	engine->setProperty("_HttpHandlerQtScript_registered", true);
 
 	qScriptRegisterMetaType<Pillow::HttpHeaderCollection>(engine, toScriptValue, fromScriptValue);
+	qScriptRegisterMetaType<QByteArray>(engine, bytesToScriptValue, bytesFromScriptValue);
 }
 
 static QString objectToString(const QScriptValue &object)
-- 
2.43.0


From 1b65920e82466062db3e288c290c142bdc48f0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:14 +0000
Subject: [PATCH 48/50] fix: requests were left unanswered when a script threw
 something else than an Error

---
 pillowcore/HttpHandlerQtScript.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pillowcore/HttpHandlerQtScript.cpp b/pillowcore/HttpHandlerQtScript.cpp
index 41606f5..6b2066b 100644
--- a/pillowcore/HttpHandlerQtScript.cpp
+++ b/pillowcore/HttpHandlerQtScript.cpp
@@ -108,9 +108,10 @@ bool HttpHandlerQtScript::handleRequest(Pillow::HttpConnection *connection)
 		queryParamsObject.setProperty(queryParams.at(i).first, queryParams.at(i).second);
 	requestObject.setProperty("requestQueryParams", queryParamsObject);
 
+	engine->clearExceptions(); // Left by earlier evaluations.
 	QScriptValue result = _scriptFunction.call(_scriptFunction, QScriptValueList() << requestObject);
 
-	if (result.isError())
+	if (result.isError() || engine->hasUncaughtException()) // Scripts may throw anything, not only Error objects.
 	{
 		if (connection->state() == HttpConnection::SendingHeaders)
 		{
-- 
2.43.0


From a6f25cbccba0389c59ffd3d830b893fcc736bfa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:14 +0000
Subject: [PATCH 49/50] fix: request parameters given to scripts were only
 partly decoded

---
 pillowcore/HttpHandlerQtScript.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pillowcore/HttpHandlerQtScript.cpp b/pillowcore/HttpHandlerQtScript.cpp
index 6b2066b..4907b12 100644
--- a/pillowcore/HttpHandlerQtScript.cpp
+++ b/pillowcore/HttpHandlerQtScript.cpp
@@ -102,7 +102,7 @@ bool HttpHandlerQtScript::handleRequest(Pillow::HttpConnection *connection)
 	requestObject.setProperty("requestHeaders", qScriptValueFromValue(engine, connection->requestHeaders()));
 	requestObject.setProperty("requestContent", QUrl::fromPercentEncoding(connection->requestContent()));
 
-	QList<QPair<QString, QString> > queryParams = QUrl(connection->requestUri()).queryItems();
+	const HttpParamCollection &queryParams = connection->requestParams();
 	QScriptValue queryParamsObject = engine->newObject();
 	for (int i = 0, iE = queryParams.size(); i < iE; ++i)
 		queryParamsObject.setProperty(queryParams.at(i).first, queryParams.at(i).second);
-- 
2.43.0


From 1f4a19380e3a028bd4593f3e5ce7f07cb707da3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:14 +0000
Subject: [PATCH 50/50] fix: edited scripts were not reloaded when older than
 the previous one or edited while being loaded

---
 pillowcore/HttpHandlerQtScript.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pillowcore/HttpHandlerQtScript.cpp b/pillowcore/HttpHandlerQtScript.cpp
index 4907b12..19e4c3b 100644
--- a/pillowcore/HttpHandlerQtScript.cpp
+++ b/pillowcore/HttpHandlerQtScript.cpp
@@ -161,7 +161,9 @@ void HttpHandlerQtScriptFile::setAutoReload(bool autoReload)
 
 bool HttpHandlerQtScriptFile::handleRequest(Pillow::HttpConnection *request)
 {
-	if (!_lastModified.isValid() || (_autoReload && QFileInfo(_fileName).lastModified() > _lastModified))
+	// Taken before reading the file, so that an edit made in the meantime is noticed next time.
+	const QDateTime lastModified = QFileInfo(_fileName).lastModified();
+	if (!_lastModified.isValid() || (_autoReload && lastModified.isValid() && lastModified != _lastModified))
 	{
 		// Time to (re)load the script.
 		qDebug() << "HttpHandlerQtScriptFile::handleRequest: (re)loading" << _fileName;
@@ -193,7 +195,7 @@ bool HttpHandlerQtScriptFile::handleRequest(Pillow::HttpConnection *request)
 			return true;
 		}
 
-		_lastModified = QFileInfo(_fileName).lastModified();
+		_lastModified = lastModified;
 		setScriptFunction(scriptFunction);
 	}
 
-- 
2.43.0

