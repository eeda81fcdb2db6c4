From c23d48e3ab39d08e1eb05d05b06a78fee36871ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:05 +0000
Subject: [PATCH 01/73] fix: raise UnreadablePostError itself when the request
 stream fails (reraise() was misused and gave a TypeError)

---
 request_parser/http/request.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index 8e2ab98..313274a 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -16,8 +16,6 @@ from request_parser.utils.encoding import escape_uri_path, iri_to_uri, uri_to_ir
 from request_parser.utils.http import is_same_domain, limited_parse_qsl, _urlparse as urlparse
 from constants import MetaDict
 
-from six import reraise as raise_
-
 RAISE_ERROR = object()
 #validates a given string for a format of the form host:port
 host_validation_re = re.compile(r"^([a-z0-9.-]+|\[[a-f0-9]*:[a-f0-9\.:]+\])(:\d+)?$")
@@ -384,7 +382,7 @@ class HttpRequest(object,):
                     chunk = self.read(chunk_size)
                     read_size += len(chunk)
             except IOError as e:
-                raise_(UnreadablePostError(*e.args), e)
+                raise UnreadablePostError(*e.args)
             
             if read_size > self.settings.DATA_UPLOAD_MAX_MEMORY_SIZE:
                 raise RequestDataTooBig('Request body exceeded settings.DATA_UPLOAD_MAX_MEMORY_SIZE.')
@@ -570,14 +568,13 @@ class HttpRequest(object,):
         try:
             return self._stream.read(*args, **kwargs)
         except IOError as e:
-            raise_(UnreadablePostError(*e.args), e)
+            raise UnreadablePostError(*e.args)
 
     def readline(self, *args, **kwargs):
         try:
             return self._stream.readline(*args, **kwargs)
         except IOError as e:
-            #raise UnreadablePostError(*e.args) from e
-            raise_(UnreadablePostError(*e.args), e)
+            raise UnreadablePostError(*e.args)
 
     def __iter__(self):
         return iter(self.readline, b'')
-- 
2.43.0


From 1772febbc06f0b25063cbd475cc4a25969f3a067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:30 +0000
Subject: [PATCH 02/73] fix: raise MultiPartParserError for a file that is not
 valid base64 (reraise() was misused and gave a TypeError)

---
 request_parser/http/multipartparser.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/request_parser/http/multipartparser.py b/request_parser/http/multipartparser.py
index eb808a6..a26be39 100644
--- a/request_parser/http/multipartparser.py
+++ b/request_parser/http/multipartparser.py
@@ -8,7 +8,6 @@ import base64
 import binascii
 import cgi
 
-from six import reraise as raise_from
 from future.backports.urllib.parse import unquote
 
 from request_parser.conf.settings import Settings
@@ -266,9 +265,9 @@ class MultiPartParser:
 
                                 try:
                                     chunk = base64.b64decode(stripped_chunk)
-                                except Exception as exc:
+                                except Exception:
                                     # Since this is only a chunk, any error is an unfixable error.                                
-                                    raise_from(MultiPartParserError("Could not decode base64 data."), exc)
+                                    raise MultiPartParserError("Could not decode base64 data.")
 
                             for i, handler in enumerate(handlers):
                                 chunk_length = len(chunk)
-- 
2.43.0


From 5c6b65f546f91f7515ecb3627a08e1ce1edf1959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:30 +0000
Subject: [PATCH 03/73] fix: parse_http_date() raises ValueError for impossible
 dates (reraise() was misused and gave a TypeError)

---
 request_parser/utils/http.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/request_parser/utils/http.py b/request_parser/utils/http.py
index 7369ef1..c3e40fb 100644
--- a/request_parser/utils/http.py
+++ b/request_parser/utils/http.py
@@ -15,9 +15,6 @@ from future.backports.urllib.parse import (
 from request_parser.exceptions.exceptions import TooManyFieldsSent
 from request_parser.utils.datastructures import MultiValueDict
 
-#Python 2 replacement for raise_from
-from six import reraise as raise_
-
 # based on RFC 7232, Appendix C
 ETAG_MATCH = re.compile(r'''
     \A(      # start of string and capture group
@@ -167,9 +164,8 @@ def parse_http_date(date):
         sec = int(m.group('sec'))
         result = datetime.datetime(year, month, day, hour, min, sec)
         return calendar.timegm(result.utctimetuple())
-    except Exception as exc:
-        #raise ValueError("%r is not a valid date" % date) from exc
-        raise_(ValueError("%r is not a valid date" % date), exc)
+    except Exception:
+        raise ValueError("%r is not a valid date" % date)
 
 
 def parse_http_date_safe(date):
-- 
2.43.0


From 8b094bcf73a0e60132991b8e0b40e68594914351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:30 +0000
Subject: [PATCH 04/73] fix: import_string() raises ImportError for bad dotted
 paths (reraise() was misused and gave a TypeError)

---
 request_parser/utils/module_loading.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/request_parser/utils/module_loading.py b/request_parser/utils/module_loading.py
index 1aad785..965b3cd 100644
--- a/request_parser/utils/module_loading.py
+++ b/request_parser/utils/module_loading.py
@@ -4,8 +4,6 @@ from importlib import import_module
 #from importlib.util import find_spec as importlib_find
 from imp import find_module as importlib_find
 
-from six import reraise as raise_
-
 def import_string(dotted_path):
     """
     Import a dotted module path and return the attribute/class designated by the
@@ -13,19 +11,17 @@ def import_string(dotted_path):
     """
     try:
         module_path, class_name = dotted_path.rsplit('.', 1)
-    except ValueError as err:
-        #raise ImportError("%s doesn't look like a module path" % dotted_path) from err
-        raise_("%s doesn't look like a module path" % dotted_path, err)
+    except ValueError:
+        raise ImportError("%s doesn't look like a module path" % dotted_path)
 
     module = import_module(module_path)
 
     try:
         return getattr(module, class_name)
-    except AttributeError as err:
-        #raise ImportError('Module "%s" does not define a "%s" attribute/class' % (
-        #    module_path, class_name)
-        #) from err
-        raise_('Module "%s" does not define a "%s" attribute/class' % (module_path, class_name), err)
+    except AttributeError:
+        raise ImportError('Module "%s" does not define a "%s" attribute/class' % (
+            module_path, class_name)
+        )
 
 
 #def autodiscover_modules(*args, **kwargs):
-- 
2.43.0


From 36a8e534a58c2ae7c26f9894b7414b3b5940dfbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:30 +0000
Subject: [PATCH 05/73] fix: reject a request target that cannot be split as a
 URL as an invalid request

---
 request_parser/http/request.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index 313274a..d696c29 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -861,7 +861,11 @@ def parse_request_line(request_line=''):
 #    if not method or not uri or not protocol_version:
 #        raise InvalidHttpRequest("Invalid request line.", 400)
     
-    request_uri_result = urlparse(uri)
+    try:
+        request_uri_result = urlparse(uri)
+    except ValueError:
+        # Not ASCII, or an unbalanced IPv6 literal.
+        raise InvalidHttpRequest("Invalid request line.", 400)
     request_line_result = {}
     request_line_result[MetaDict.ReqLine.SCHEME] = request_uri_result[0]
     request_line_result[MetaDict.ReqLine.DOMAIN] = request_uri_result[1]
-- 
2.43.0


From 10f83854694e075f8faa1ccf6b6d9f12077d425c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:30 +0000
Subject: [PATCH 06/73] fix: reject non-ASCII request headers as an invalid
 request instead of failing with LookupError

---
 request_parser/http/request.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index d696c29..f66c15e 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -821,14 +821,17 @@ def parse_request_headers(request_header_stream):
         request_header_stream = request_header_stream[end:]
         start = 0
 
+        try:
+            request_header.decode('ascii')
+        except UnicodeError:
+            raise InvalidHttpRequest("Invalid request header: {!r}".format(request_header), 400)
+
         #parse the request header
         end_index = request_header.find(b':')
         if end_index != -1:
             header =  request_header[:end_index]
-            header = header.encode('ascii','')
             value = request_header[end_index+1:]
             value = value.strip()
-            value = value.encode('ascii','')
             if header in request_headers:
                 request_headers[header].append(value)
             else:
-- 
2.43.0


From 81836bf3cd689667dabb96f668e719e8cae63159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:30 +0000
Subject: [PATCH 07/73] fix: a request that starts with an empty line does not
 get a method that contains CRLF

---
 request_parser/http/request.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index f66c15e..5401923 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -804,7 +804,7 @@ def parse_request_headers(request_header_stream):
     request_headers = {}
     start = 0
 
-    end = request_header_stream.find(b'\r\n', 1)
+    end = request_header_stream.find(b'\r\n')
     if end != -1:
         request_line = request_header_stream[start:end]
     else:
-- 
2.43.0


From 7701888d1bc4780ad1d6aaa3537e4049ab167d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:30 +0000
Subject: [PATCH 08/73] fix: a host that ends in a line feed is not a valid
 host

---
 request_parser/http/request.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index 5401923..56c849a 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -18,7 +18,7 @@ from constants import MetaDict
 
 RAISE_ERROR = object()
 #validates a given string for a format of the form host:port
-host_validation_re = re.compile(r"^([a-z0-9.-]+|\[[a-f0-9]*:[a-f0-9\.:]+\])(:\d+)?$")
+host_validation_re = re.compile(r"^([a-z0-9.-]+|\[[a-f0-9]*:[a-f0-9\.:]+\])(:\d+)?\Z")
 
 class UnreadablePostError(IOError):
     pass
-- 
2.43.0


From aa582d0f5f957b4a962ff1711adf65b6116338c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:02 +0000
Subject: [PATCH 09/73] fix: ignore an unknown charset in Content-Type instead
 of failing with LookupError

---
 request_parser/http/request.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index 56c849a..6f794ca 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -478,7 +478,9 @@ class HttpRequest(object,):
         if header_dict is not None:        
             for key, value in header_dict.items():
                 if 'charset' == key.lower():
-                    self.encoding = value
+                    #an unknown charset is ignored
+                    if is_text_encoding(value):
+                        self.encoding = value
                     break
 
         self.META[MetaDict.Info.QUERY_STRING] = meta_dict[MetaDict.ReqLine.QUERY_STRING]
@@ -772,6 +774,16 @@ def bytes_to_text(s, encoding):
     else:
         return s
 
+def is_text_encoding(charset):
+    """
+    Return True if charset names an encoding that bytes can be decoded with.
+    """
+    try:
+        return isinstance(b'\x00\xff'.decode(charset, 'replace'), type(u''))
+    except Exception:
+        # Unknown, or a codec (like hex) that's not a character encoding.
+        return False
+
 def split_domain_port(host):
     """
     Return a (domain, port) tuple from a given host.
-- 
2.43.0


From e52962aa2fe2da631226dfac64ffa2b2becf0eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:02 +0000
Subject: [PATCH 10/73] fix: a body with bytes that are undecodable in its
 charset can be parsed

---
 request_parser/http/request.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index 6f794ca..f67cb2b 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -544,9 +544,9 @@ class HttpRequest(object,):
         #restart content-type check
         if self.content_type == 'text/plain' or self.content_type == 'text/html'\
             or self.content_type == 'application/json':
-            self._body = self.body().decode(self.encoding)
+            self._body = self.body().decode(self.encoding, 'replace')
         else:
-            self._body = self.body().decode(self.encoding)
+            self._body = self.body().decode(self.encoding, 'replace')
         
         self._request_body_parsed = True
         self.POST = self._post
-- 
2.43.0


From 303d9aefa263c15e6e0966c735036dabc8e13595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:02 +0000
Subject: [PATCH 11/73] fix: raise MultiPartParserError when the multipart
 boundary is missing

---
 request_parser/http/multipartparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/request_parser/http/multipartparser.py b/request_parser/http/multipartparser.py
index a26be39..787fb5c 100644
--- a/request_parser/http/multipartparser.py
+++ b/request_parser/http/multipartparser.py
@@ -63,7 +63,7 @@ class MultiPartParser:
         content_types, opts = parse_header(content_type.encode('ascii'))
         boundary = opts.get('boundary')
         if not boundary or not cgi.valid_boundary(boundary):
-            raise MultiPartParserError('Invalid boundary in multipart: %s' % boundary.decode())
+            raise MultiPartParserError('Invalid boundary in multipart: %r' % boundary)
 
         # Content-Length should contain the length of the body we are about
         # to receive.
-- 
2.43.0


From bc000b70761af34c69a920a7d5df05f28793a5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:02 +0000
Subject: [PATCH 12/73] fix: do not drop empty uploaded files

---
 request_parser/http/multipartparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/request_parser/http/multipartparser.py b/request_parser/http/multipartparser.py
index 787fb5c..c3f619c 100644
--- a/request_parser/http/multipartparser.py
+++ b/request_parser/http/multipartparser.py
@@ -320,7 +320,7 @@ class MultiPartParser:
         """
         for i, handler in enumerate(self._upload_handlers):
             file_obj = handler.file_complete(counters[i])
-            if file_obj:
+            if file_obj is not None:
                 # If it returns a file object, then set the files dict.
                 self._files.appendlist(force_text(old_field_name, self._encoding, errors='replace'), file_obj)
                 break
-- 
2.43.0


From c00c6956f590dab40b69e8003734d544d19b3c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:02 +0000
Subject: [PATCH 13/73] fix: truncated base64 file data does not hang the
 multipart parser

---
 request_parser/http/multipartparser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/request_parser/http/multipartparser.py b/request_parser/http/multipartparser.py
index c3f619c..bc35abd 100644
--- a/request_parser/http/multipartparser.py
+++ b/request_parser/http/multipartparser.py
@@ -260,6 +260,8 @@ class MultiPartParser:
                                 remaining = len(stripped_chunk) % 4
                                 while remaining != 0:
                                     over_chunk = field_stream.read(4 - remaining)
+                                    if not over_chunk:
+                                        break
                                     stripped_chunk += b"".join(over_chunk.split())
                                     remaining = len(stripped_chunk) % 4
 
-- 
2.43.0


From ded8b5cfc57a12998c65f7e1d98957683f21359f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:02 +0000
Subject: [PATCH 14/73] fix: a field that is not valid base64 is delivered
 undecoded

---
 request_parser/http/multipartparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/request_parser/http/multipartparser.py b/request_parser/http/multipartparser.py
index bc35abd..ceff506 100644
--- a/request_parser/http/multipartparser.py
+++ b/request_parser/http/multipartparser.py
@@ -188,7 +188,7 @@ class MultiPartParser:
                         try:
                             #decode the data read
                             data = base64.b64decode(raw_data)
-                        except binascii.Error:
+                        except (TypeError, binascii.Error):
                             data = raw_data
                     else:
                         data = field_stream.read(size=read_size)
-- 
2.43.0


From 6e30b5183d9703e52aec03cca706f90b569068cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:02 +0000
Subject: [PATCH 15/73] fix: content of a skipped multipart part is never
 parsed as another part

---
 request_parser/http/multipartparser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/request_parser/http/multipartparser.py b/request_parser/http/multipartparser.py
index ceff506..b0a773e 100644
--- a/request_parser/http/multipartparser.py
+++ b/request_parser/http/multipartparser.py
@@ -158,6 +158,8 @@ class MultiPartParser:
                     disposition = meta_data['content-disposition'][1]
                     field_name = disposition['name'].strip()
                 except (KeyError, IndexError, AttributeError):
+                    # Use it up, so that its rest isn't taken for another part.
+                    exhaust(field_stream)
                     continue
 
                 transfer_encoding = meta_data.get('content-transfer-encoding')
@@ -224,6 +226,7 @@ class MultiPartParser:
                         file_name = force_text(file_name, encoding, errors='replace')
                         file_name = self.IE_sanitize(unescape_entities(file_name))
                     if not file_name:
+                        exhaust(field_stream)
                         continue
 
                     content_type, content_type_extra = meta_data.get('content-type', ('', {}))
-- 
2.43.0


From 9234ee151de9d85b806687bfb9e3a5bddd0f9f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:02 +0000
Subject: [PATCH 16/73] fix: reading a closed LazyStream reports its end
 instead of failing with TypeError

---
 request_parser/utils/datastructures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/request_parser/utils/datastructures.py b/request_parser/utils/datastructures.py
index 374b65d..526d947 100644
--- a/request_parser/utils/datastructures.py
+++ b/request_parser/utils/datastructures.py
@@ -418,7 +418,7 @@ class LazyStream:
         Replace the producer with an empty list. Any leftover bytes that have
         already been read will still be reported upon read() and/or next().
         """
-        self._producer = []
+        self._producer = iter([])
 
     def __iter__(self):
         return self
-- 
2.43.0


From 362d97214911c63da460b648bc256087076ac7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:02 +0000
Subject: [PATCH 17/73] fix: is_ajax() looks at the value of X-Requested-With

---
 request_parser/http/request.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index f67cb2b..30e69ad 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -170,9 +170,7 @@ class HttpRequest(object,):
         return self.scheme == 'https'
 
     def is_ajax(self):
-        if 'XMLHttpRequest' in self.META[MetaDict.Info.REQ_HEADERS]:
-            return True
-        return False
+        return self.META[MetaDict.Info.REQ_HEADERS].get('X-Requested-With') == 'XMLHttpRequest'
 
     def is_plain_text(self):
         """
-- 
2.43.0


From 3cd43b2cc2dfd092f87c0c666d3080f73288ed50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:02 +0000
Subject: [PATCH 18/73] fix: an upload directory that cannot be created is
 refused with InvalidDirectory

---
 request_parser/conf/settings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/request_parser/conf/settings.py b/request_parser/conf/settings.py
index 1bbf7ec..b87cf29 100644
--- a/request_parser/conf/settings.py
+++ b/request_parser/conf/settings.py
@@ -140,7 +140,7 @@ class Settings:
                 test_file.write("Permissions Check!")
                 test_file.close()
                 remove(test_file_path)                
-            except IOError as ioError:
+            except (IOError, OSError) as ioError:
                 if ioError.errno == errno.EACCES:
                     raise InvalidDirectory("No write permissions to directory: {}".format(file_upload_dir))
                 else:
-- 
2.43.0


From 887124f7c41f48d830c605061e4922958d0fd782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:02 +0000
Subject: [PATCH 19/73] fix: HttpRequest can be read by line and iterated over
 (LazyStream had no readline)

---
 request_parser/utils/datastructures.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/request_parser/utils/datastructures.py b/request_parser/utils/datastructures.py
index 526d947..85b36da 100644
--- a/request_parser/utils/datastructures.py
+++ b/request_parser/utils/datastructures.py
@@ -411,6 +411,24 @@ class LazyStream:
         self.position += len(output)
         return output
 
+    def readline(self, size=None):
+        """
+        Return the bytes up to and including the next line feed, at most size.
+        """
+        line = b''
+        while size is None or size < 0 or len(line) < size:
+            try:
+                line += next(self)
+            except StopIteration:
+                break
+            if b'\n' in line:
+                break
+        end = line.find(b'\n') + 1 or len(line)
+        if size is not None and size >= 0:
+            end = min(end, size)
+        self.unget(line[end:])
+        return line[:end]
+
     def close(self):
         """
         Used to invalidate/disable this lazy stream.
-- 
2.43.0


From 8279662c6432b729f416e32d93a503f8d575088d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:02 +0000
Subject: [PATCH 20/73] fix: DATA_UPLOAD_MAX_MEMORY_SIZE None means no limit
 for raw bodies too

---
 request_parser/http/request.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index 30e69ad..f603f61 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -368,21 +368,21 @@ class HttpRequest(object,):
 
             #default chunk_size is 64KB
             chunk_size = 64 * (2 ** 10)
+            max_size = self.settings.DATA_UPLOAD_MAX_MEMORY_SIZE
             read_size = 0
             chunk = ''
             _body = ''
             try:                
                 chunk = self.read(chunk_size)
                 read_size += len(chunk)
-                while read_size <= self.settings.DATA_UPLOAD_MAX_MEMORY_SIZE and\
-                        chunk:
+                while chunk and (max_size is None or read_size <= max_size):
                     _body += chunk
                     chunk = self.read(chunk_size)
                     read_size += len(chunk)
             except IOError as e:
                 raise UnreadablePostError(*e.args)
             
-            if read_size > self.settings.DATA_UPLOAD_MAX_MEMORY_SIZE:
+            if max_size is not None and read_size > max_size:
                 raise RequestDataTooBig('Request body exceeded settings.DATA_UPLOAD_MAX_MEMORY_SIZE.')
             self._body = _body
             
-- 
2.43.0


From 39f99818eec02ef98a99f3adb5af0651d67babc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:25 +0000
Subject: [PATCH 21/73] fix: bytes_to_text() decodes bytes, as documented,
 instead of encoding them again

---
 request_parser/http/request.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index f603f61..a9e0a84 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -767,8 +767,7 @@ def bytes_to_text(s, encoding):
     Return any non-bytes objects without change.
     """
     if isinstance(s, bytes):
-        #return str(s, encoding, 'replace')
-        return str(s).encode(encoding=encoding, errors='replace')
+        return s.decode(encoding, 'replace')
     else:
         return s
 
-- 
2.43.0


From 515e94ebf3bda23f8d7bd8f05c9e51e32a7b46fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:25 +0000
Subject: [PATCH 22/73] fix: QueryDict honours its encoding argument

---
 request_parser/http/request.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index a9e0a84..611824f 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -616,7 +616,7 @@ class QueryDict(MultiValueDict):
     def __init__(self, settings, query_string=None, mutable=False, encoding=None):
         super(QueryDict, self).__init__()
         self.settings = settings
-        self.encoding = self.settings.DEFAULT_CHARSET
+        self.encoding = encoding or self.settings.DEFAULT_CHARSET
         query_string = query_string or ''
         parse_qsl_kwargs = {
             'keep_blank_values': True,
-- 
2.43.0


From d2241b9e2ca5d26c9361b241fde876eaacbbc96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:25 +0000
Subject: [PATCH 23/73] fix: the charset of one request does not leak into the
 settings shared with others

---
 request_parser/http/multipartparser.py | 2 +-
 request_parser/http/request.py         | 8 +++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/request_parser/http/multipartparser.py b/request_parser/http/multipartparser.py
index b0a773e..1d20832 100644
--- a/request_parser/http/multipartparser.py
+++ b/request_parser/http/multipartparser.py
@@ -128,7 +128,7 @@ class MultiPartParser:
                 return result[0], result[1]
 
         # Create the data structures to be used later.
-        self._post = QueryDict(self.settings, mutable=True)
+        self._post = QueryDict(self.settings, mutable=True, encoding=encoding)
         self._files = MultiValueDict()
 
         # Instantiate the stream:
diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index 611824f..e1db17c 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -87,6 +87,7 @@ class HttpRequest(object,):
         Helper method to init/reinit an object.
         """
         
+        self._encoding = None
         self.GET = QueryDict(self.settings, mutable=True)
         self.META = {}
 
@@ -184,7 +185,7 @@ class HttpRequest(object,):
 
     @property
     def encoding(self):
-        return self.settings.DEFAULT_CHARSET
+        return self._encoding or self.settings.DEFAULT_CHARSET
 
     @encoding.setter
     def encoding(self, val):
@@ -196,7 +197,8 @@ class HttpRequest(object,):
         #DONE: Need to check when the GET/POST dictonary is redone?
         #ANSWER: They're redone whenever parse_request_header and parse_request_body
         #are called
-        self.settings.DEFAULT_CHARSET = val
+        #the settings may be shared with other requests
+        self._encoding = val
         if hasattr(self, 'GET'):
             del self.GET
         if hasattr(self, '_post'):
@@ -482,7 +484,7 @@ class HttpRequest(object,):
                     break
 
         self.META[MetaDict.Info.QUERY_STRING] = meta_dict[MetaDict.ReqLine.QUERY_STRING]
-        self.GET = QueryDict(self.settings, self.META[MetaDict.ReqLine.QUERY_STRING]) if self.META[MetaDict.ReqLine.QUERY_STRING] else QueryDict(self.settings, mutable=True)
+        self.GET = QueryDict(self.settings, self.META[MetaDict.ReqLine.QUERY_STRING], encoding=self.encoding) if self.META[MetaDict.ReqLine.QUERY_STRING] else QueryDict(self.settings, mutable=True, encoding=self.encoding)
         #Add a immutable version of request_headers dictionary into META dictionary
         self.META[MetaDict.Info.REQ_HEADERS] = ImmutableMultiValueDict(request_headers)
 
-- 
2.43.0


From a489a1895a4174ce3a395ab72d26db82d6105ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:25 +0000
Subject: [PATCH 24/73] fix: GET is decoded again, not lost, when the encoding
 of a request is changed

---
 request_parser/http/request.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index e1db17c..12d88db 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -199,8 +199,8 @@ class HttpRequest(object,):
         #are called
         #the settings may be shared with other requests
         self._encoding = val
-        if hasattr(self, 'GET'):
-            del self.GET
+        query_string = self.META.get(MetaDict.Info.QUERY_STRING, '')
+        self.GET = QueryDict(self.settings, query_string, mutable=not query_string, encoding=val)
         if hasattr(self, '_post'):
             del self._post
         if hasattr(self, '_body'):
-- 
2.43.0


From 2aa53dc252039e4b83e9e43b2622727becc26a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:05 +0000
Subject: [PATCH 25/73] fix: a re-used request object does not report body data
 of its previous request

---
 request_parser/http/request.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index 12d88db..58fd02a 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -401,6 +401,12 @@ class HttpRequest(object,):
         if self._request_header_parsed:
             return
 
+        #nothing of an earlier request may be reported as this one's
+        self.POST = QueryDict(self.settings, mutable=True)
+        self.FILES = MultiValueDict()
+        if hasattr(self, '_body'):
+            del self._body
+
         #create a LazyStream out of the _stream
         #if self._stream is None:
             #self._stream = BytesIO()
-- 
2.43.0


From 6b39c30ec5a07d48a1c4664589bd26762e4375ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:05 +0000
Subject: [PATCH 26/73] fix: reading body() first does not lose the form data

---
 request_parser/http/request.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index 58fd02a..d757b93 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -387,6 +387,8 @@ class HttpRequest(object,):
             if max_size is not None and read_size > max_size:
                 raise RequestDataTooBig('Request body exceeded settings.DATA_UPLOAD_MAX_MEMORY_SIZE.')
             self._body = _body
+            #what has been read can be parsed or read again
+            self._stream = LazyStream(BytesIO(_body))
             
         elif not self._request_header_parsed:
             self.parse_request_header()
-- 
2.43.0


From eb19ba34e058bd011cab8ef3bbdc32b052057df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:05 +0000
Subject: [PATCH 27/73] fix: QueryDict can be copied and built with fromkeys()
 (no settings were passed)

---
 request_parser/http/request.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index d757b93..33561fb 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -649,12 +649,12 @@ class QueryDict(MultiValueDict):
         self._mutable = mutable
 
     @classmethod
-    def fromkeys(cls, iterable, value='', mutable=False, encoding=None):
+    def fromkeys(cls, iterable, value='', mutable=False, encoding=None, settings=None):
         """
         Return a new QueryDict with keys (may be repeated) from an iterable and
         values from value.
         """
-        q = cls('', mutable=True, encoding=encoding)
+        q = cls(settings or Settings.default(), mutable=True, encoding=encoding)
         for key in iterable:
             q.appendlist(key, value)
         if not mutable:
@@ -686,13 +686,13 @@ class QueryDict(MultiValueDict):
         super(QueryDict, self).__delitem__(key)
 
     def __copy__(self):
-        result = self.__class__('', mutable=True, encoding=self.encoding)
+        result = self.__class__(self.settings, mutable=True, encoding=self.encoding)
         for key, value in self.lists():
             result.setlist(key, value)
         return result
 
     def __deepcopy__(self, memo):
-        result = self.__class__('', mutable=True, encoding=self.encoding)
+        result = self.__class__(self.settings, mutable=True, encoding=self.encoding)
         memo[id(self)] = result
         for key, value in self.lists():
             result.setlist(copy.deepcopy(key, memo), copy.deepcopy(value, memo))
-- 
2.43.0


From 761de59dd4e2e87b64fa8fe1ef2a4316072974a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:05 +0000
Subject: [PATCH 28/73] fix: QueryDict.urlencode() can encode non-ASCII text

---
 request_parser/http/request.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index 33561fb..aba5faa 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -760,7 +760,7 @@ class QueryDict(MultiValueDict):
                 return urlencode({k: v})
         for k, list_ in self.lists():
             output.extend(
-                encode(k.encode(self.encoding), str(v).encode(self.encoding))
+                encode(text_to_bytes(k, self.encoding), text_to_bytes(v, self.encoding))
                 for v in list_
             )
         return '&'.join(output)
@@ -781,6 +781,14 @@ def bytes_to_text(s, encoding):
     else:
         return s
 
+def text_to_bytes(s, encoding):
+    """
+    Return s, converted to text if it's not text or bytes, as bytes.
+    """
+    if isinstance(s, type(u'')):
+        return s.encode(encoding)
+    return str(s)
+
 def is_text_encoding(charset):
     """
     Return True if charset names an encoding that bytes can be decoded with.
-- 
2.43.0


From 0bdba722e88a97bc194ec34410d6eac9b9caf123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:05 +0000
Subject: [PATCH 29/73] fix: urlencode() takes unicode values as text, not as
 sequences of ASCII characters

---
 request_parser/utils/http.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/request_parser/utils/http.py b/request_parser/utils/http.py
index c3e40fb..fa9027e 100644
--- a/request_parser/utils/http.py
+++ b/request_parser/utils/http.py
@@ -94,7 +94,7 @@ def urlencode(query, doseq=False):
                 'Cannot encode None in a query string. Did you mean to pass '
                 'an empty string or omit the value?'
             )
-        elif isinstance(value, (str, bytes)):
+        elif isinstance(value, (str, bytes, type(u''))):
             query_val = value
         else:
             try:
@@ -111,7 +111,7 @@ def urlencode(query, doseq=False):
                             'Cannot encode None in a query string. Did you '
                             'mean to pass an empty string or omit the value?'
                         )
-                    elif not isinstance(item, bytes):
+                    elif not isinstance(item, (bytes, type(u''))):
                         item = str(item)
                     query_val.append(item)
         query_params.append((key, query_val))
-- 
2.43.0


From 612934943322ff4f4504f5fe32303affe2db4c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:05 +0000
Subject: [PATCH 30/73] fix: urlsafe_base64_decode() raises ValueError for
 invalid input

---
 request_parser/utils/http.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/request_parser/utils/http.py b/request_parser/utils/http.py
index fa9027e..61312bb 100644
--- a/request_parser/utils/http.py
+++ b/request_parser/utils/http.py
@@ -221,7 +221,7 @@ def urlsafe_base64_decode(s):
     s = s.encode()
     try:
         return base64.urlsafe_b64decode(s.ljust(len(s) + len(s) % 4, b'='))
-    except (LookupError, BinasciiError) as e:
+    except (TypeError, LookupError, BinasciiError) as e:
         raise ValueError(e)
 
 
-- 
2.43.0


From 0604f84249d069ed0694578b6610804bd0c193be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:05 +0000
Subject: [PATCH 31/73] fix: iri_to_uri() and set_path() accept non-ASCII text

---
 request_parser/utils/encoding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/request_parser/utils/encoding.py b/request_parser/utils/encoding.py
index 8b2f59c..f153097 100644
--- a/request_parser/utils/encoding.py
+++ b/request_parser/utils/encoding.py
@@ -85,7 +85,7 @@ def iri_to_uri(iri):
         return iri
     #WARNING: The following 2 line might come to bite back - have to pay some attentions
     #elif isinstance(iri, Promise):
-    else:
+    elif not isinstance(iri, type(u'')):
         iri = str(iri)
     return quote(iri, safe="/#%[]=:;$&()+,!?*@'~")
 
-- 
2.43.0


From 7c2dbf6e7c1efb61198d97711a787b6c18b01ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:05 +0000
Subject: [PATCH 32/73] fix: an escaped quote does not end a quoted header
 parameter

---
 request_parser/http/multipartparser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/request_parser/http/multipartparser.py b/request_parser/http/multipartparser.py
index 1d20832..6bc392a 100644
--- a/request_parser/http/multipartparser.py
+++ b/request_parser/http/multipartparser.py
@@ -7,6 +7,7 @@ file upload handlers for processing.
 import base64
 import binascii
 import cgi
+import re
 
 from future.backports.urllib.parse import unquote
 
@@ -623,7 +624,7 @@ def _parse_header_params(s):
         #that doesn't have " within its boundary
         #once such a sequence is found, it hopefully
         #is of the form 'boundary=------12312312312312'
-        while end > 0 and s.count(b'"', 0, end) % 2:
+        while end > 0 and re.sub(br'\\.', b'', s[:end]).count(b'"') % 2:
             end = s.find(b';', end + 1)
         if end < 0:
             end = len(s)
-- 
2.43.0


From e3bc99480536b6e0de6d655f0dc7af609e35f20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:05 +0000
Subject: [PATCH 33/73] fix: pop(), popitem() and clear() do not change an
 immutable multi-value dict, and its other mutators work once it is mutable

---
 request_parser/utils/datastructures.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/request_parser/utils/datastructures.py b/request_parser/utils/datastructures.py
index 85b36da..c6792ba 100644
--- a/request_parser/utils/datastructures.py
+++ b/request_parser/utils/datastructures.py
@@ -290,7 +290,7 @@ class ImmutableMultiValueDict(MultiValueDict):
     def __setitem__(self, key, value):
         #set the value as a list i.e [value]
         self._assert_mutable()
-        super(ImmutableMultiValueDict, self).__setitem__(key, [value])
+        super(ImmutableMultiValueDict, self).__setitem__(key, value)
 
     def __delitem__(self, key):
         self._assert_mutable()
@@ -322,14 +322,14 @@ class ImmutableMultiValueDict(MultiValueDict):
         Set the default value for a key if key is not in the dict
         """
         self._assert_mutable()
-        super(ImmutableMultiValueDict, self).setdefault(key, default)
+        return super(ImmutableMultiValueDict, self).setdefault(key, default)
 
     def setlistdefault(self, key, default_list=None):
         """
         Set a default list for a key if key not in the dict
         """
         self._assert_mutable()
-        super(ImmutableMultiValueDict, self).setlistdefault(key, default_list)
+        return super(ImmutableMultiValueDict, self).setlistdefault(key, default_list)
 
     def appendlist(self, key, value):
         """Append an item to the internal list associated with key."""
@@ -339,7 +339,19 @@ class ImmutableMultiValueDict(MultiValueDict):
     def update(self, *args, **kwargs):
         """Extend rather than replace existing key lists."""
         self._assert_mutable()
-        super(ImmutableMultiValueDict, self).update(args, kwargs)
+        super(ImmutableMultiValueDict, self).update(*args, **kwargs)
+
+    def pop(self, key, *args):
+        self._assert_mutable()
+        return super(ImmutableMultiValueDict, self).pop(key, *args)
+
+    def popitem(self):
+        self._assert_mutable()
+        return super(ImmutableMultiValueDict, self).popitem()
+
+    def clear(self):
+        self._assert_mutable()
+        super(ImmutableMultiValueDict, self).clear()
 
 class LazyStream:
     """
-- 
2.43.0


From 1fa3d7c4863429eb4f62c53baf8a0c5ab4a20141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:47 +0000
Subject: [PATCH 34/73] fix: an RFC 2231 parameter in an unknown charset does
 not make parse_header() fail

---
 request_parser/http/multipartparser.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/request_parser/http/multipartparser.py b/request_parser/http/multipartparser.py
index 6bc392a..ebebfd1 100644
--- a/request_parser/http/multipartparser.py
+++ b/request_parser/http/multipartparser.py
@@ -597,7 +597,11 @@ def parse_header(line):
             if has_encoding:
                 encoding, lang, value = value.split(b"'")                
                 #will come back to bite us. Investigate -> DONE
-                value = unquote(value.decode(), encoding=encoding.decode())
+                try:
+                    value = unquote(value.decode(), encoding=encoding.decode())
+                except Exception:
+                    # Not ASCII, or an unknown charset: keep it as it was sent.
+                    pass
             if len(value) >= 2 and value[:1] == value[-1:] == b'"':
                 value = value[1:-1]
                 value = value.replace(b'\\\\', b'\\').replace(b'\\"', b'"')
-- 
2.43.0


From b159728444d0112f56e944a37ae772ce60bbcd8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:27 +0000
Subject: [PATCH 35/73] fix: parse_header() returns an RFC 2231 value as bytes
 (UTF-8), as documented; files with a non-ASCII name in this form can be
 uploaded

---
 request_parser/http/multipartparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/request_parser/http/multipartparser.py b/request_parser/http/multipartparser.py
index ebebfd1..2fdc56e 100644
--- a/request_parser/http/multipartparser.py
+++ b/request_parser/http/multipartparser.py
@@ -598,7 +598,7 @@ def parse_header(line):
                 encoding, lang, value = value.split(b"'")                
                 #will come back to bite us. Investigate -> DONE
                 try:
-                    value = unquote(value.decode(), encoding=encoding.decode())
+                    value = unquote(value.decode(), encoding=encoding.decode()).encode('utf-8')
                 except Exception:
                     # Not ASCII, or an unknown charset: keep it as it was sent.
                     pass
-- 
2.43.0


From eb7d4335b4998a9e6c51e90fea24ef7dc85ca4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:47 +0000
Subject: [PATCH 36/73] fix: a file name with an over-long or unusable
 extension does not make an upload to disk fail

---
 request_parser/files/uploadedfile.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/request_parser/files/uploadedfile.py b/request_parser/files/uploadedfile.py
index 6956185..2f2bc55 100644
--- a/request_parser/files/uploadedfile.py
+++ b/request_parser/files/uploadedfile.py
@@ -3,6 +3,7 @@ Classes representing uploaded files.
 """
 
 import os
+import re
 from io import BytesIO
 
 from request_parser.conf.settings import Settings
@@ -59,6 +60,8 @@ class TemporaryUploadedFile(UploadedFile, object):
         _settings = settings
         if _settings is None:
             _settings = Settings.default()
+        # The name comes from the client: only use an extension that's fit for a path.
+        ext = re.sub(r'[^\w.-]', '_', ext)[:100]
         file = tempfile.NamedTemporaryFile(suffix='.upload' + ext, dir=_settings.FILE_UPLOAD_TEMP_DIR)
         super(TemporaryUploadedFile, self).__init__(file, name, content_type, size, charset, content_type_extra, transfer_encoding)
 
-- 
2.43.0


From 7c7b02c1ba11c3b77a780b2a0d95db4b180fc778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:47 +0000
Subject: [PATCH 37/73] fix: create the upload directory when it is missing, as
 with default settings, instead of failing the upload

---
 request_parser/files/uploadedfile.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/request_parser/files/uploadedfile.py b/request_parser/files/uploadedfile.py
index 2f2bc55..21dd0c1 100644
--- a/request_parser/files/uploadedfile.py
+++ b/request_parser/files/uploadedfile.py
@@ -62,6 +62,8 @@ class TemporaryUploadedFile(UploadedFile, object):
             _settings = Settings.default()
         # The name comes from the client: only use an extension that's fit for a path.
         ext = re.sub(r'[^\w.-]', '_', ext)[:100]
+        if not os.path.isdir(_settings.FILE_UPLOAD_TEMP_DIR):
+            os.makedirs(_settings.FILE_UPLOAD_TEMP_DIR)
         file = tempfile.NamedTemporaryFile(suffix='.upload' + ext, dir=_settings.FILE_UPLOAD_TEMP_DIR)
         super(TemporaryUploadedFile, self).__init__(file, name, content_type, size, charset, content_type_extra, transfer_encoding)
 
-- 
2.43.0


From e11652bcbcf44b860d9f2fba41d697be3a31fc20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:47 +0000
Subject: [PATCH 38/73] fix: skipping, stopping or refusing an upload closes
 exactly the files that are not delivered

---
 request_parser/files/uploadhandler.py  |  4 ++++
 request_parser/http/multipartparser.py | 25 ++++++++++++++++++++++++-
 2 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/request_parser/files/uploadhandler.py b/request_parser/files/uploadhandler.py
index 0f861ab..7d31284 100644
--- a/request_parser/files/uploadhandler.py
+++ b/request_parser/files/uploadhandler.py
@@ -211,6 +211,10 @@ class ConvenientFileUploadHandler(FileUploadHandler, object):
         self._received_data_size = 0
         self._switched_to_temp_file = False
     
+    @property
+    def file(self):
+        return self._handler.file
+
     def handle_raw_input(self, input_data, META, content_length, boundary, settings, encoding=None):
         #We grab the settings object and call the handler's handle_raw_input to activate it.
         self._settings = settings
diff --git a/request_parser/http/multipartparser.py b/request_parser/http/multipartparser.py
index 2fdc56e..24c6991 100644
--- a/request_parser/http/multipartparser.py
+++ b/request_parser/http/multipartparser.py
@@ -93,6 +93,23 @@ class MultiPartParser:
         self._upload_handlers = upload_handlers
 
     def parse(self):
+        """
+        Parse the POST data and close all files if it is refused.
+        """
+        self._files = MultiValueDict()
+        try:
+            return self._parse()
+        except Exception:
+            # Nobody gets to see the files received so far.
+            files = self._files
+            self._files = MultiValueDict()
+            self._close_files()
+            for _, file_objs in files.lists():
+                for file_obj in file_objs:
+                    file_obj.close()
+            raise
+
+    def _parse(self):
         """
         Parse the POST data and break it into a FILES MultiValueDict and a POST
         MultiValueDict.
@@ -309,6 +326,9 @@ class MultiPartParser:
             if not e.connection_reset:
                 exhaust(self._input_data)
         else:
+            # A file without a closing boundary never gets completed.
+            if old_field_name:
+                self._close_files()
             # Make sure that the request data is all fed
             exhaust(self._input_data)
 
@@ -340,8 +360,11 @@ class MultiPartParser:
         # Free up all file handles.
         # FIXME: this currently assumes that upload handlers store the file as 'file'
         # We should document that... (Maybe add handler.free_file to complement new_file)
+        # A file that's complete, and belongs to the caller now, stays open.
+        complete = [file_obj for _, file_objs in self._files.lists() for file_obj in file_objs]
+        complete += [file_obj.file for file_obj in complete if hasattr(file_obj, 'file')]
         for handler in self._upload_handlers:
-            if hasattr(handler, 'file'):
+            if hasattr(handler, 'file') and not any(handler.file is file_obj for file_obj in complete):
                 handler.file.close()
 
 class InterBoundaryIter:
-- 
2.43.0


From 006ae5a808883121650770b445007ae3d0697231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:20 +0000
Subject: [PATCH 39/73] fix: after a body was refused as too big, its rest is
 not taken for the body

---
 request_parser/http/request.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index aba5faa..887a192 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -385,6 +385,8 @@ class HttpRequest(object,):
                 raise UnreadablePostError(*e.args)
             
             if max_size is not None and read_size > max_size:
+                #a later attempt has to see the whole body, not the rest of it
+                self._stream = LazyStream(chain([_body + chunk], self._stream))
                 raise RequestDataTooBig('Request body exceeded settings.DATA_UPLOAD_MAX_MEMORY_SIZE.')
             self._body = _body
             #what has been read can be parsed or read again
-- 
2.43.0


From ca20a89e7c02f3228b26bbb6185f20470427c238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:33 +0000
Subject: [PATCH 40/73] fix: form data with escapes and characters outside the
 BMP can be decoded

---
 request_parser/utils/http.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/request_parser/utils/http.py b/request_parser/utils/http.py
index 61312bb..e359f34 100644
--- a/request_parser/utils/http.py
+++ b/request_parser/utils/http.py
@@ -41,6 +41,8 @@ RFC3986_SUBDELIMS = "!$&'()*+,;="
 
 FIELDS_MATCH = re.compile('[&;]')
 
+ESCAPES_MATCH = re.compile('(?:%[0-9a-fA-F]{2})+')
+
 
 #@keep_lazy_text
 def urlquote(url, safe='/'):
@@ -394,6 +396,11 @@ def limited_parse_qsl(qs, keep_blank_values=False, encoding='utf-8',
     fields_limit: maximum number of fields parsed or an exception
         is raised. None means no limit and is the default.
     """
+    def decode_escapes(match):
+        # Only ever given the escapes: unquote() fails for them in text with
+        # characters outside the Basic Multilingual Plane.
+        return unquote(match.group(0), encoding=encoding, errors=errors)
+
     if fields_limit:
         pairs = FIELDS_MATCH.split(qs, fields_limit)
         if len(pairs) > fields_limit:
@@ -417,10 +424,10 @@ def limited_parse_qsl(qs, keep_blank_values=False, encoding='utf-8',
         if nv[1] or keep_blank_values:
             name = nv[0].replace('+', ' ')
             #FIXED: need to convert 'name' with 'encoding' to UTF-8 before asking urllib.unquote to unquote?
-            name = unquote(name, encoding=encoding, errors=errors)
+            name = ESCAPES_MATCH.sub(decode_escapes, name)
             #name = unquote(name)
             value = nv[1].replace('+', ' ')
-            value = unquote(value, encoding=encoding, errors=errors)
+            value = ESCAPES_MATCH.sub(decode_escapes, value)
             #value = unquote(value)
             r.append((name, value))
     return r
-- 
2.43.0


From f0dff848f2c546cb68a209b3c8e554a4bb73dab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:50 +0000
Subject: [PATCH 41/73] fix: a huge character reference in a file name does not
 make the upload fail

---
 request_parser/utils/text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/request_parser/utils/text.py b/request_parser/utils/text.py
index 4b03c92..19ac875 100644
--- a/request_parser/utils/text.py
+++ b/request_parser/utils/text.py
@@ -13,7 +13,7 @@ def _replace_entity(match):
             else:
                 c = int(text)
             return chr(c)
-        except ValueError:
+        except (ValueError, TypeError, OverflowError):
             return match.group(0)
     else:
         try:
-- 
2.43.0


From a5d621077511d02101b1227f465ebe5c81bd3044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:04 +0000
Subject: [PATCH 42/73] fix: what is left of a stopped upload is not read into
 memory or counted against the data size limit

---
 request_parser/http/request.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index 887a192..8900c03 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -552,7 +552,10 @@ class HttpRequest(object,):
             self._post, self._files = QueryDict(self.settings, encoding=self.encoding), MultiValueDict()
         
         #restart content-type check
-        if self.content_type == 'text/plain' or self.content_type == 'text/html'\
+        if self.content_type == 'multipart/form-data':
+            #the body was for the upload handlers, and what they left is nobody's
+            pass
+        elif self.content_type == 'text/plain' or self.content_type == 'text/html'\
             or self.content_type == 'application/json':
             self._body = self.body().decode(self.encoding, 'replace')
         else:
-- 
2.43.0


From e21737e2113ee7c9e08635fa4c55f8a82a62f918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:26 +0000
Subject: [PATCH 43/73] fix: quotes escaped in an extended parameter value are
 part of it

---
 request_parser/http/multipartparser.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/request_parser/http/multipartparser.py b/request_parser/http/multipartparser.py
index 24c6991..dcd1557 100644
--- a/request_parser/http/multipartparser.py
+++ b/request_parser/http/multipartparser.py
@@ -618,16 +618,18 @@ def parse_header(line):
                     has_encoding = True
             value = p[i + 1:].strip()
             if has_encoding:
-                encoding, lang, value = value.split(b"'")                
+                encoding, lang, value = value.split(b"'")
+            #quotes that are escaped in an extended value belong to it
+            if len(value) >= 2 and value[:1] == value[-1:] == b'"':
+                value = value[1:-1]
+                value = value.replace(b'\\\\', b'\\').replace(b'\\"', b'"')
+            if has_encoding:
                 #will come back to bite us. Investigate -> DONE
                 try:
                     value = unquote(value.decode(), encoding=encoding.decode()).encode('utf-8')
                 except Exception:
                     # Not ASCII, or an unknown charset: keep it as it was sent.
                     pass
-            if len(value) >= 2 and value[:1] == value[-1:] == b'"':
-                value = value[1:-1]
-                value = value.replace(b'\\\\', b'\\').replace(b'\\"', b'"')
             pdict[name] = value
     return key, pdict
 
-- 
2.43.0


From f483e850b5c0aac936336df10547bebb3ac12d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:11 +0000
Subject: [PATCH 44/73] fix: the POST data of a request without a body is
 immutable like any other

---
 request_parser/http/request.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index 8900c03..af53264 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -529,6 +529,8 @@ class HttpRequest(object,):
         #check if the body is empty
         if not data:
             self._post, self._files = QueryDict(self.settings, encoding=self.encoding), MultiValueDict()
+            self.POST = self._post
+            self.FILES = self._files
             return
         body_stream.unget(data)
         
-- 
2.43.0


From 6f54596f037c471bad8e3584fd185c9294c0f07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:36 +0000
Subject: [PATCH 45/73] fix: an HTTP date followed by a line feed is not a
 valid date

---
 request_parser/utils/http.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/request_parser/utils/http.py b/request_parser/utils/http.py
index e359f34..c3b1906 100644
--- a/request_parser/utils/http.py
+++ b/request_parser/utils/http.py
@@ -32,9 +32,9 @@ __M = r'(?P<mon>\w{3})'
 __Y = r'(?P<year>\d{4})'
 __Y2 = r'(?P<year>\d{2})'
 __T = r'(?P<hour>\d{2}):(?P<min>\d{2}):(?P<sec>\d{2})'
-RFC1123_DATE = re.compile(r'^\w{3}, %s %s %s %s GMT$' % (__D, __M, __Y, __T))
-RFC850_DATE = re.compile(r'^\w{6,9}, %s-%s-%s %s GMT$' % (__D, __M, __Y2, __T))
-ASCTIME_DATE = re.compile(r'^\w{3} %s %s %s %s$' % (__M, __D2, __T, __Y))
+RFC1123_DATE = re.compile(r'^\w{3}, %s %s %s %s GMT\Z' % (__D, __M, __Y, __T))
+RFC850_DATE = re.compile(r'^\w{6,9}, %s-%s-%s %s GMT\Z' % (__D, __M, __Y2, __T))
+ASCTIME_DATE = re.compile(r'^\w{3} %s %s %s %s\Z' % (__M, __D2, __T, __Y))
 
 RFC3986_GENDELIMS = ":/?#[]@"
 RFC3986_SUBDELIMS = "!$&'()*+,;="
-- 
2.43.0


From 4748d880213f5b897cb257793133663375e21d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:35 +0000
Subject: [PATCH 46/73] fix: an ETag may contain commas

---
 request_parser/utils/http.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/request_parser/utils/http.py b/request_parser/utils/http.py
index c3b1906..2f8fb03 100644
--- a/request_parser/utils/http.py
+++ b/request_parser/utils/http.py
@@ -41,6 +41,9 @@ RFC3986_SUBDELIMS = "!$&'()*+,;="
 
 FIELDS_MATCH = re.compile('[&;]')
 
+# an ETag may contain commas, which don't separate it from the next one
+ETAG_LIST_MATCH = re.compile(r'\s*(?:W/)?"[^"]*"[^,]*|[^,]+')
+
 ESCAPES_MATCH = re.compile('(?:%[0-9a-fA-F]{2})+')
 
 
@@ -237,7 +240,7 @@ def parse_etags(etag_str):
         return ['*']
     else:
         # Parse each ETag individually, and return any that are valid.
-        etag_matches = (ETAG_MATCH.match(etag.strip()) for etag in etag_str.split(','))
+        etag_matches = (ETAG_MATCH.match(etag.strip()) for etag in ETAG_LIST_MATCH.findall(etag_str))
         return [match.group(1) for match in etag_matches if match]
 
 
-- 
2.43.0


From e01f563e7e5351d26e25cbb10e20c4cbe46b5f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:35 +0000
Subject: [PATCH 47/73] fix: escape_leading_slashes() accepts non-ASCII text

---
 request_parser/utils/http.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/request_parser/utils/http.py b/request_parser/utils/http.py
index 2f8fb03..5ae2df6 100644
--- a/request_parser/utils/http.py
+++ b/request_parser/utils/http.py
@@ -443,5 +443,5 @@ def escape_leading_slashes(url):
     redirecting to another host.
     """
     if url.startswith('//'):
-        url = '/%2F{}'.format(url[2:])
+        url = '/%2F' + url[2:]
     return url
-- 
2.43.0


From 5e25257ae0f0352aa121259ebc3b94a9acd327b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:27 +0000
Subject: [PATCH 48/73] fix: long form data can be decoded (one call per run of
 ASCII text, no deep recursion)

---
 request_parser/utils/http.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/request_parser/utils/http.py b/request_parser/utils/http.py
index 5ae2df6..d6c4888 100644
--- a/request_parser/utils/http.py
+++ b/request_parser/utils/http.py
@@ -44,7 +44,7 @@ FIELDS_MATCH = re.compile('[&;]')
 # an ETag may contain commas, which don't separate it from the next one
 ETAG_LIST_MATCH = re.compile(r'\s*(?:W/)?"[^"]*"[^,]*|[^,]+')
 
-ESCAPES_MATCH = re.compile('(?:%[0-9a-fA-F]{2})+')
+ASCII_MATCH = re.compile('[\x00-\x7f]+')
 
 
 #@keep_lazy_text
@@ -400,8 +400,8 @@ def limited_parse_qsl(qs, keep_blank_values=False, encoding='utf-8',
         is raised. None means no limit and is the default.
     """
     def decode_escapes(match):
-        # Only ever given the escapes: unquote() fails for them in text with
-        # characters outside the Basic Multilingual Plane.
+        # Only ever given ASCII text: unquote() fails for text with characters
+        # outside the Basic Multilingual Plane.
         return unquote(match.group(0), encoding=encoding, errors=errors)
 
     if fields_limit:
@@ -427,10 +427,10 @@ def limited_parse_qsl(qs, keep_blank_values=False, encoding='utf-8',
         if nv[1] or keep_blank_values:
             name = nv[0].replace('+', ' ')
             #FIXED: need to convert 'name' with 'encoding' to UTF-8 before asking urllib.unquote to unquote?
-            name = ESCAPES_MATCH.sub(decode_escapes, name)
+            name = ASCII_MATCH.sub(decode_escapes, name)
             #name = unquote(name)
             value = nv[1].replace('+', ' ')
-            value = ESCAPES_MATCH.sub(decode_escapes, value)
+            value = ASCII_MATCH.sub(decode_escapes, value)
             #value = unquote(value)
             r.append((name, value))
     return r
-- 
2.43.0


From 13386dff5cf4437c25b15e45bad6a71909cd5144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:12 +0000
Subject: [PATCH 49/73] fix: is_safe_url() takes a unicode host as one host,
 not as the set of its substrings

---
 request_parser/utils/http.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/request_parser/utils/http.py b/request_parser/utils/http.py
index d6c4888..0f33c33 100644
--- a/request_parser/utils/http.py
+++ b/request_parser/utils/http.py
@@ -290,7 +290,7 @@ def is_safe_url(url, allowed_hosts, require_https=False):
         return False
     if allowed_hosts is None:
         allowed_hosts = set()
-    elif isinstance(allowed_hosts, str):
+    elif isinstance(allowed_hosts, (str, type(u''))):
         allowed_hosts = {allowed_hosts}
     # Chrome treats \ completely as / in paths but it could be part of some
     # basic auth credentials so we need to check both URLs.
-- 
2.43.0


From d768aa40931fba5d1c5e62724cd069dbb791332d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:12 +0000
Subject: [PATCH 50/73] fix: is_safe_url() accepts byte strings

---
 request_parser/utils/http.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/request_parser/utils/http.py b/request_parser/utils/http.py
index 0f33c33..78924c9 100644
--- a/request_parser/utils/http.py
+++ b/request_parser/utils/http.py
@@ -285,6 +285,8 @@ def is_safe_url(url, allowed_hosts, require_https=False):
     scheme, as opposed to 'http' and 'https' with the default, ``False``.
     """
     if url is not None:
+        if isinstance(url, bytes):
+            url = url.decode('utf-8', 'replace')
         url = url.strip()
     if not url:
         return False
-- 
2.43.0


From 575cfa77ca6c17e33512467f2701ad7df5596d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:12 +0000
Subject: [PATCH 51/73] fix: is_safe_url() ignores tabs and line breaks in a
 URL, as browsers do

---
 request_parser/utils/http.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/request_parser/utils/http.py b/request_parser/utils/http.py
index 78924c9..a2ce42e 100644
--- a/request_parser/utils/http.py
+++ b/request_parser/utils/http.py
@@ -287,7 +287,8 @@ def is_safe_url(url, allowed_hosts, require_https=False):
     if url is not None:
         if isinstance(url, bytes):
             url = url.decode('utf-8', 'replace')
-        url = url.strip()
+        # Browsers drop tabs and line breaks wherever they are in a URL.
+        url = re.sub('[\t\r\n]', '', url).strip()
     if not url:
         return False
     if allowed_hosts is None:
-- 
2.43.0


From fc4fb467e30260f0232d148c04551b93ca3dd37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:30 +0000
Subject: [PATCH 52/73] fix: an upload directory with a non-ASCII name that
 cannot be used is refused with InvalidDirectory

---
 request_parser/conf/settings.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/request_parser/conf/settings.py b/request_parser/conf/settings.py
index b87cf29..49bcef1 100644
--- a/request_parser/conf/settings.py
+++ b/request_parser/conf/settings.py
@@ -142,8 +142,8 @@ class Settings:
                 remove(test_file_path)                
             except (IOError, OSError) as ioError:
                 if ioError.errno == errno.EACCES:
-                    raise InvalidDirectory("No write permissions to directory: {}".format(file_upload_dir))
+                    raise InvalidDirectory("No write permissions to directory: %s" % file_upload_dir)
                 else:
-                    raise InvalidDirectory("Error: Invalid directory: {}".format(file_upload_dir))
+                    raise InvalidDirectory("Error: Invalid directory: %s" % file_upload_dir)
         
         return file_upload_dir
\ No newline at end of file
-- 
2.43.0


From d3df1ab0e2c2dccd95515b2ba563b0bc0bc54b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:30 +0000
Subject: [PATCH 53/73] fix: Settings made from an empty dict have the default
 values

---
 request_parser/conf/settings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/request_parser/conf/settings.py b/request_parser/conf/settings.py
index 49bcef1..c463e71 100644
--- a/request_parser/conf/settings.py
+++ b/request_parser/conf/settings.py
@@ -40,7 +40,7 @@ class Settings:
     ]
 
     def __init__(self, settings_dict=None, check_presence=False):
-        if not settings_dict or type(settings_dict) != dict:
+        if not isinstance(settings_dict, dict):
             return
 
         default_settings = Settings.default(check_presence=check_presence)
-- 
2.43.0


From 46aa56956c204ec7fee2f4660fb4f6d21fd49632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:38 +0000
Subject: [PATCH 54/73] fix: a request whose head was refused stays refused

---
 request_parser/http/request.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index af53264..6e503d7 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -68,6 +68,7 @@ class HttpRequest(object,):
             self.settings = Settings.default()        
 
         #Parsing status flags
+        self._request_header_started = False
         self._request_header_parsed = False
         self._request_body_parsed = False
 
@@ -233,6 +234,7 @@ class HttpRequest(object,):
         #reset the header META data
         self._reset_header_meta_data()
         #reset parse status flags
+        self._request_header_started = False
         self._request_header_parsed = False
         self._request_body_parsed = False
     
@@ -404,6 +406,9 @@ class HttpRequest(object,):
         #if parsing has already started, then simply return
         if self._request_header_parsed:
             return
+        #a request that was refused stays refused
+        if self._request_header_started:
+            raise InvalidHttpRequest("Invalid HTTP request.", 400, '')
 
         #nothing of an earlier request may be reported as this one's
         self.POST = QueryDict(self.settings, mutable=True)
@@ -422,8 +427,8 @@ class HttpRequest(object,):
         #read until we find a '\r\n\r\n' sequence
         request_header_end = -1
         while request_header_end == -1:
-            chunk = request_header_stream.read(self.settings.MAX_HEADER_SIZE)            
-            self._request_header_parsed = True
+            self._request_header_started = True
+            chunk = request_header_stream.read(self.settings.MAX_HEADER_SIZE)
             if not chunk:
                 break
             
@@ -497,6 +502,7 @@ class HttpRequest(object,):
         self.GET = QueryDict(self.settings, self.META[MetaDict.ReqLine.QUERY_STRING], encoding=self.encoding) if self.META[MetaDict.ReqLine.QUERY_STRING] else QueryDict(self.settings, mutable=True, encoding=self.encoding)
         #Add a immutable version of request_headers dictionary into META dictionary
         self.META[MetaDict.Info.REQ_HEADERS] = ImmutableMultiValueDict(request_headers)
+        self._request_header_parsed = True
 
     def _mark_post_parse_error(self):
         self._post = QueryDict(self.settings)
-- 
2.43.0


From 494293760188aaeea51d348157a5afc6c665910e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:54 +0000
Subject: [PATCH 55/73] fix: a stream that failed does not come to a regular
 end later

---
 request_parser/utils/datastructures.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/request_parser/utils/datastructures.py b/request_parser/utils/datastructures.py
index c6792ba..aa1c014 100644
--- a/request_parser/utils/datastructures.py
+++ b/request_parser/utils/datastructures.py
@@ -353,6 +353,19 @@ class ImmutableMultiValueDict(MultiValueDict):
         self._assert_mutable()
         super(ImmutableMultiValueDict, self).clear()
 
+class FailedProducer:
+    """
+    An iterable that fails, and fails again however often it is asked.
+    """
+    def __init__(self, error):
+        self.error = error
+
+    def __iter__(self):
+        return self
+
+    def next(self):
+        raise self.error
+
 class LazyStream:
     """
     The LazyStream wrapper allows one to get and "unget" bytes from a stream.
@@ -418,7 +431,12 @@ class LazyStream:
             output = self._leftover
             self._leftover = b''
         else:
-            output = next(self._producer)
+            try:
+                output = next(self._producer)
+            except IOError as e:
+                #what is missing is lost, so the end is never reached
+                self._producer = FailedProducer(e)
+                raise
             self._unget_history = []
         self.position += len(output)
         return output
-- 
2.43.0


From f55cbe27b68f9f83d9f030a90c6c7507b54ff16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:18 +0000
Subject: [PATCH 56/73] fix: the rest of a form that failed is not its body

---
 request_parser/http/request.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index 6e503d7..9fc5fd9 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -71,6 +71,8 @@ class HttpRequest(object,):
         self._request_header_started = False
         self._request_header_parsed = False
         self._request_body_parsed = False
+        #whether parsing has used up some of the body
+        self._body_started = False
 
         # POST dictionary in a multipart/form-data is of the form
         # POST['key'] = { 'data'              : data,
@@ -237,6 +239,7 @@ class HttpRequest(object,):
         self._request_header_started = False
         self._request_header_parsed = False
         self._request_body_parsed = False
+        self._body_started = False
     
     @property
     def body_stream(self):
@@ -273,6 +276,7 @@ class HttpRequest(object,):
 
         #reset the body parsing flag
         self._request_body_parsed = False
+        self._body_started = False
 
     def _reset_header_meta_data(self):
         """
@@ -351,7 +355,9 @@ class HttpRequest(object,):
 
     def _parse_file_upload(self, META, post_data):
         """Return a tuple of (POST QueryDict, FILES MultiValueDict)."""
-        parser = MultiPartParser(META, post_data, self.upload_handlers, self.settings ,self.encoding)        
+        parser = MultiPartParser(META, post_data, self.upload_handlers, self.settings ,self.encoding)
+        #what is left of the stream from here on is not the body
+        self._body_started = True
         return parser.parse()
     
     def body(self):
@@ -363,7 +369,10 @@ class HttpRequest(object,):
         #returning it raw
         if self._request_body_parsed and (self.content_type == 'application/x-www-form-urlencoded' or self.content_type == 'multipart/form-data'):
             raise RawPostDataException("You cannot access raw body after reading from request's data stream.")
-    
+
+        elif self._body_started and not hasattr(self, '_body'):
+            raise RawPostDataException("You cannot access raw body after reading from request's data stream.")
+
         elif self._request_header_parsed and not hasattr(self, '_body'):
             # Limit the maximum request data size that will be handled in-memory.
             
@@ -516,7 +525,10 @@ class HttpRequest(object,):
         #sanity check for a duplicate call
         if self._request_body_parsed:
             return
-        
+        #nor can the rest of a form be parsed that failed
+        if self._body_started:
+            raise RawPostDataException("You cannot parse the body after reading from request's data stream.")
+
         #initialize the upload_hanldlers
         self._initialize_handlers()
 
-- 
2.43.0


From c7c18b878122808fb74aa6d88e25b18e17ef9dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:58 +0000
Subject: [PATCH 57/73] fix: a path that names no module is refused with an
 import error

---
 request_parser/utils/module_loading.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/request_parser/utils/module_loading.py b/request_parser/utils/module_loading.py
index 965b3cd..263f84a 100644
--- a/request_parser/utils/module_loading.py
+++ b/request_parser/utils/module_loading.py
@@ -10,7 +10,10 @@ def import_string(dotted_path):
     last name in the path. Raise ImportError if the import failed.
     """
     try:
-        module_path, class_name = dotted_path.rsplit('.', 1)
+        #names are ASCII, and neither empty nor relative
+        module_path, class_name = str(dotted_path).rsplit('.', 1)
+        if not all(module_path.split('.')):
+            raise ValueError('Empty module name')
     except ValueError:
         raise ImportError("%s doesn't look like a module path" % dotted_path)
 
-- 
2.43.0


From 479061b79714d222df559933bbbdb8955763ab27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:25 +0000
Subject: [PATCH 58/73] fix: submodules of a package are found

---
 request_parser/utils/module_loading.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/request_parser/utils/module_loading.py b/request_parser/utils/module_loading.py
index 263f84a..ba225fd 100644
--- a/request_parser/utils/module_loading.py
+++ b/request_parser/utils/module_loading.py
@@ -67,16 +67,20 @@ def import_string(dotted_path):
 def module_has_submodule(package, module_name):
     """See if 'module' is in 'package'."""
     try:
-        package_name = package.__name__
         package_path = package.__path__
     except AttributeError:
         # package isn't a package.
         return False
 
-    full_module_name = package_name + '.' + module_name
     try:
-        return importlib_find(full_module_name, package_path) is not None
-    except (ImportError, AttributeError):
+        #find_module takes one name, not a dotted one
+        for name in str(module_name).split('.'):
+            file, pathname, _ = importlib_find(name, package_path)
+            if file:
+                file.close()
+            package_path = [pathname]
+        return True
+    except (ImportError, AttributeError, UnicodeError):
         # When module_name is an invalid dotted path, Python raises ImportError
         # (or ModuleNotFoundError in Python 3.6+). AttributeError may be raised
         # if the penultimate part of the path is not a package.
-- 
2.43.0


From db17fabbe9f12f2bea625671cbcfd67ad3361f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:28 +0000
Subject: [PATCH 59/73] fix: notations of Python are not accepted as charsets

---
 request_parser/http/request.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index 9fc5fd9..daaf1a5 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -1,3 +1,4 @@
+import codecs
 import copy
 import re
 import warnings
@@ -819,6 +820,9 @@ def is_text_encoding(charset):
     Return True if charset names an encoding that bytes can be decoded with.
     """
     try:
+        # Python's notations for text are not charsets.
+        if codecs.lookup(charset).name in ('punycode', 'idna', 'unicode-escape', 'raw-unicode-escape', 'unicode-internal'):
+            return False
         return isinstance(b'\x00\xff'.decode(charset, 'replace'), type(u''))
     except Exception:
         # Unknown, or a codec (like hex) that's not a character encoding.
-- 
2.43.0


From bd2901b0df827a6c79d4b70e49a67816a85d0c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:47 +0000
Subject: [PATCH 60/73] fix: quotes in the name of an extended parameter are
 not those of its value

---
 request_parser/http/multipartparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/request_parser/http/multipartparser.py b/request_parser/http/multipartparser.py
index dcd1557..bc891fc 100644
--- a/request_parser/http/multipartparser.py
+++ b/request_parser/http/multipartparser.py
@@ -614,7 +614,7 @@ def parse_header(line):
                 # Lang/encoding embedded in the value (like "filename*=UTF-8''file.ext")
                 # http://tools.ietf.org/html/rfc2231#section-4
                 name = name[:-1]
-                if p.count(b"'") == 2:
+                if p[i + 1:].count(b"'") == 2:
                     has_encoding = True
             value = p[i + 1:].strip()
             if has_encoding:
-- 
2.43.0


From ed51c79832597d316ac09d563f4bfe60fee0700e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:52 +0000
Subject: [PATCH 61/73] fix: upload handlers that are set on a request are used

---
 request_parser/http/request.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index daaf1a5..8902e84 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -75,6 +75,9 @@ class HttpRequest(object,):
         #whether parsing has used up some of the body
         self._body_started = False
 
+        #the upload handlers for the next body, if they were set or asked for
+        self._upload_handlers = []
+
         # POST dictionary in a multipart/form-data is of the form
         # POST['key'] = { 'data'              : data,
         #                 'content-type'      : type,
@@ -241,6 +244,8 @@ class HttpRequest(object,):
         self._request_header_parsed = False
         self._request_body_parsed = False
         self._body_started = False
+        #upload handlers are not for more than one body
+        self._upload_handlers = []
     
     @property
     def body_stream(self):
@@ -278,6 +283,8 @@ class HttpRequest(object,):
         #reset the body parsing flag
         self._request_body_parsed = False
         self._body_started = False
+        #upload handlers are not for more than one body
+        self._upload_handlers = []
 
     def _reset_header_meta_data(self):
         """
@@ -341,7 +348,7 @@ class HttpRequest(object,):
 
     @upload_handlers.setter
     def upload_handlers(self, upload_handlers):
-        if hasattr(self, '_files'):
+        if self._body_started or self._request_body_parsed:
             raise AttributeError("You cannot set the upload handlers after the upload has been processed.")
         self._upload_handlers = upload_handlers
 
@@ -530,8 +537,9 @@ class HttpRequest(object,):
         if self._body_started:
             raise RawPostDataException("You cannot parse the body after reading from request's data stream.")
 
-        #initialize the upload_hanldlers
-        self._initialize_handlers()
+        #initialize the upload_hanldlers, unless they were set
+        if not self._upload_handlers:
+            self._initialize_handlers()
 
         #if header not parsed already
         #if parse_request_body is called, then it means
-- 
2.43.0


From 757f7512bfaebb1a110e448799291bd685c2ee1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:06 +0000
Subject: [PATCH 62/73] fix: the stream attributes of a request give its stream

---
 request_parser/http/request.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index 8902e84..feb2800 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -215,7 +215,7 @@ class HttpRequest(object,):
     
     @property
     def stream(self):
-        if hasattr(self, '_stream') and not self._stream:
+        if hasattr(self, '_stream') and self._stream:
             return self._stream
         return None
 
@@ -249,7 +249,7 @@ class HttpRequest(object,):
     
     @property
     def body_stream(self):
-        if hasattr(self, '_stream') and not self._stream:
+        if hasattr(self, '_stream') and self._stream:
             return self._stream
         return None
 
-- 
2.43.0


From 185b7239b9ac2ef62e0aca2cef5bce2d6b38404a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:06 +0000
Subject: [PATCH 63/73] fix: a field limit of 0 is a limit

---
 request_parser/utils/http.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/request_parser/utils/http.py b/request_parser/utils/http.py
index a2ce42e..426f22a 100644
--- a/request_parser/utils/http.py
+++ b/request_parser/utils/http.py
@@ -407,8 +407,9 @@ def limited_parse_qsl(qs, keep_blank_values=False, encoding='utf-8',
         # outside the Basic Multilingual Plane.
         return unquote(match.group(0), encoding=encoding, errors=errors)
 
-    if fields_limit:
-        pairs = FIELDS_MATCH.split(qs, fields_limit)
+    if fields_limit is not None and qs:
+        # (a maximum of 0 splits would be none)
+        pairs = FIELDS_MATCH.split(qs, max(fields_limit, 1))
         if len(pairs) > fields_limit:
             raise TooManyFieldsSent(
                 'The number of GET/POST parameters exceeded '
-- 
2.43.0


From f3b76f76b02e8e95fae9a3596540c98d530341b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:06 +0000
Subject: [PATCH 64/73] fix: the letter case of a multipart content type does
 not matter

---
 request_parser/http/multipartparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/request_parser/http/multipartparser.py b/request_parser/http/multipartparser.py
index bc891fc..3055fc1 100644
--- a/request_parser/http/multipartparser.py
+++ b/request_parser/http/multipartparser.py
@@ -57,7 +57,7 @@ class MultiPartParser:
 
         # Content-Type should contain multipart and the boundary information.
         content_type = META.get('Content-Type', '')
-        if not content_type.startswith('multipart/'):
+        if not content_type.lower().startswith('multipart/'):
             raise MultiPartParserError('Invalid Content-Type: %s' % content_type)
 
         # Parse the header to get the boundary to split the parts.
-- 
2.43.0


From 127b2330242826d2ac70d64721665819e5158cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:32 +0000
Subject: [PATCH 65/73] fix: the truth value of a file is that of its name in
 Python 2 too, not whether it has content

---
 request_parser/files/base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/request_parser/files/base.py b/request_parser/files/base.py
index 4f1b2d7..8a0e6ac 100644
--- a/request_parser/files/base.py
+++ b/request_parser/files/base.py
@@ -4,7 +4,7 @@ from io import BytesIO, StringIO, UnsupportedOperation
 from request_parser.files.utils import FileProxyMixin
 #from django.utils.functional import cached_property
 
-class File(FileProxyMixin):
+class File(FileProxyMixin, object):
     DEFAULT_CHUNK_SIZE = 64 * 2 ** 10
 
     def __init__(self, file, name=None):
@@ -24,6 +24,8 @@ class File(FileProxyMixin):
     def __bool__(self):
         return bool(self.name)
 
+    __nonzero__ = __bool__
+
     def __len__(self):
         return int(self.size)
 
@@ -132,6 +134,8 @@ class ContentFile(File):
     def __bool__(self):
         return True
 
+    __nonzero__ = __bool__
+
     def open(self, mode=None):
         self.seek(0)
         return self
-- 
2.43.0


From 5fa65555cd180ab19f07083cde9bba6098ccd0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:32 +0000
Subject: [PATCH 66/73] fix: File knows its size, and ContentFile can be made
 in Python 2

---
 request_parser/files/base.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/request_parser/files/base.py b/request_parser/files/base.py
index 8a0e6ac..7670d0b 100644
--- a/request_parser/files/base.py
+++ b/request_parser/files/base.py
@@ -29,8 +29,11 @@ class File(FileProxyMixin, object):
     def __len__(self):
         return int(self.size)
 
-    #@cached_property
+    @property
     def size(self):
+        if hasattr(self, '_size'):
+            #it was set
+            return self._size
         if hasattr(self.file, 'size'):
             return self.file.size
         if hasattr(self.file, 'name'):
@@ -46,6 +49,10 @@ class File(FileProxyMixin, object):
             return size
         raise AttributeError("Unable to determine the file's size.")
 
+    @size.setter
+    def size(self, value):
+        self._size = value
+
     def chunks(self, chunk_size=None):
         """
         Read the file and yield chunks of ``chunk_size`` bytes (defaults to
@@ -124,8 +131,8 @@ class ContentFile(File):
     A File-like object that takes just raw content, rather than an actual file.
     """
     def __init__(self, content, name=None):
-        stream_class = StringIO if isinstance(content, str) else BytesIO
-        super().__init__(stream_class(content), name=name)
+        stream_class = StringIO if isinstance(content, type(u'')) else BytesIO
+        super(ContentFile, self).__init__(stream_class(content), name=name)
         self.size = len(content)
 
     def __str__(self):
@@ -144,7 +151,7 @@ class ContentFile(File):
         pass
 
     def write(self, data):
-        self.__dict__.pop('size', None)  # Clear the computed size.
+        self.__dict__.pop('_size', None)  # Clear the computed size.
         return self.file.write(data)
 
 
-- 
2.43.0


From 700776cc8d8ca7822f885f491959a71633cef36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:26 +0000
Subject: [PATCH 67/73] fix: reopening a closed upload does not open, and
 truncate, a file with the name given by the client

---
 request_parser/files/uploadedfile.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/request_parser/files/uploadedfile.py b/request_parser/files/uploadedfile.py
index 21dd0c1..ca284ad 100644
--- a/request_parser/files/uploadedfile.py
+++ b/request_parser/files/uploadedfile.py
@@ -71,6 +71,12 @@ class TemporaryUploadedFile(UploadedFile, object):
         """Return the full path of this file."""
         return self.file.name
 
+    def open(self, mode=None):
+        # A file called like the upload (its name comes from the client) isn't it.
+        if self.closed:
+            raise ValueError("The file cannot be reopened.")
+        return super(TemporaryUploadedFile, self).open(mode)
+
     def close(self):
         try:
             return self.file.close()
-- 
2.43.0


From aa032c496687b9bb1b4c69dced5a91adb1b68f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:43 +0000
Subject: [PATCH 68/73] fix: multi-value and query dictionaries can be pickled

---
 request_parser/utils/datastructures.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/request_parser/utils/datastructures.py b/request_parser/utils/datastructures.py
index aa1c014..63d1dd4 100644
--- a/request_parser/utils/datastructures.py
+++ b/request_parser/utils/datastructures.py
@@ -1,4 +1,5 @@
 import copy
+import copy_reg
 from io import BytesIO
 
 from request_parser.exceptions.exceptions import SuspiciousMultipartForm, InputStreamExhausted
@@ -76,7 +77,11 @@ class MultiValueDict(dict):
     def __getstate__(self):
         #Fixed dictionary comprehension here
         multi_value_state_dict = dict((k, self._getlist(k)) for k in self)
-        return {self.__dict__,{'_data': multi_value_state_dict}}
+        return dict(self.__dict__, _data=multi_value_state_dict)
+
+    def __reduce_ex__(self, protocol):
+        #the items are part of the state, as values would replace the lists
+        return copy_reg.__newobj__, (self.__class__,), self.__getstate__()
 
     def __setstate__(self, obj_dict):
         #retrieve the dictionary associated with '_data' key
@@ -84,8 +89,8 @@ class MultiValueDict(dict):
         data = obj_dict.pop('_data', {})
         #for each (key, value) tuple in data
         for k, v in data.items():
-            #create the list with value v for key k
-            self.setlist(k, v)
+            #create the list with value v for key k, as it was in the pickled one
+            MultiValueDict.setlist(self, k, v)
         #update the attribute dictionary from the returned obj_dict
         #the update automatically iterates through the key, value pair in #obj_dict and populates the attributes; since there's no parameter
         #with '_dict' key, that item is ignored.
-- 
2.43.0


From d4bee260fb611b6d274410bce93b4929ff77d138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:27 +0000
Subject: [PATCH 69/73] fix: QueryDict.update() and setlistdefault() convert
 names and values to text like its other methods

---
 request_parser/http/request.py         | 1 +
 request_parser/utils/datastructures.py | 8 +++++---
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/request_parser/http/request.py b/request_parser/http/request.py
index feb2800..e822ae0 100644
--- a/request_parser/http/request.py
+++ b/request_parser/http/request.py
@@ -740,6 +740,7 @@ class QueryDict(MultiValueDict):
 
     def setlistdefault(self, key, default_list=None):
         self._assert_mutable()
+        key = bytes_to_text(key, self.encoding)
         return super(QueryDict, self).setlistdefault(key, default_list)
 
     def appendlist(self, key, value):
diff --git a/request_parser/utils/datastructures.py b/request_parser/utils/datastructures.py
index 63d1dd4..0761265 100644
--- a/request_parser/utils/datastructures.py
+++ b/request_parser/utils/datastructures.py
@@ -210,7 +210,9 @@ class MultiValueDict(dict):
                 #then for each (key, value_list) tuple,
                 for key, value_list in other_dict.lists():
                     #the existing one is extended
-                    self.setlistdefault(key).extend(value_list)
+                    self.setlistdefault(key)
+                    for value in list(value_list):
+                        self.appendlist(key, value)
             #if its not a MultiValueDict,
             else:
                 #then assuming it's some dictionary, it's iterated upon
@@ -220,7 +222,7 @@ class MultiValueDict(dict):
                         #the existing one is /appended/ since we don't know
                         #the type of the value, we can only append and not
                         #extend
-                        self.setlistdefault(key).append(value)
+                        self.appendlist(key, value)
                 #if our assumption of other_dict being another dictionary
                 #is wrong
                 except TypeError:
@@ -230,7 +232,7 @@ class MultiValueDict(dict):
         for key, value in kwargs.items():
             #the value for each key is /appended/ since we don't know if value
             #will be another list
-            self.setlistdefault(key).append(value)
+            self.appendlist(key, value)
 
     def dict(self):
         """Return current object as a dict with singular values."""
-- 
2.43.0


From 4c629b7808d301263ad260f6cb53943e70d0377d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:32 +0000
Subject: [PATCH 70/73] fix: urlunquote() and urlunquote_plus() take any text
 with escapes

---
 request_parser/utils/http.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/request_parser/utils/http.py b/request_parser/utils/http.py
index 426f22a..e0b38c9 100644
--- a/request_parser/utils/http.py
+++ b/request_parser/utils/http.py
@@ -71,7 +71,7 @@ def urlunquote(quoted_url):
     A legacy compatibility wrapper to Python's urllib.parse.unquote() function.
     (was used for unicode handling on Python 2)
     """
-    return unquote(quoted_url)
+    return _unquote_text(unquote, quoted_url)
 
 
 #@keep_lazy_text
@@ -80,7 +80,15 @@ def urlunquote_plus(quoted_url):
     A legacy compatibility wrapper to Python's urllib.parse.unquote_plus()
     function. (was used for unicode handling on Python 2)
     """
-    return unquote_plus(quoted_url)
+    return _unquote_text(unquote_plus, quoted_url)
+
+
+def _unquote_text(unquote_ascii, text):
+    # Only give it ASCII text: it fails for text with characters outside the
+    # Basic Multilingual Plane, and for other byte strings.
+    if isinstance(text, bytes):
+        text = text.decode('utf-8', 'replace')
+    return ASCII_MATCH.sub(lambda match: unquote_ascii(match.group(0)), text)
 
 
 def urlencode(query, doseq=False):
-- 
2.43.0


From c4f5f9cf28700c8893f3e498f585d2242b6bddff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:03 +0000
Subject: [PATCH 71/73] fix: character references in file names are those of
 any character, in the encoding of the request

---
 request_parser/http/multipartparser.py |  2 +-
 request_parser/utils/text.py           | 17 ++++++++++++-----
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/request_parser/http/multipartparser.py b/request_parser/http/multipartparser.py
index 3055fc1..d3a6222 100644
--- a/request_parser/http/multipartparser.py
+++ b/request_parser/http/multipartparser.py
@@ -242,7 +242,7 @@ class MultiPartParser:
                     file_name = disposition.get('filename')
                     if file_name:
                         file_name = force_text(file_name, encoding, errors='replace')
-                        file_name = self.IE_sanitize(unescape_entities(file_name))
+                        file_name = self.IE_sanitize(unescape_entities(file_name, encoding))
                     if not file_name:
                         exhaust(field_stream)
                         continue
diff --git a/request_parser/utils/text.py b/request_parser/utils/text.py
index 19ac875..46b935f 100644
--- a/request_parser/utils/text.py
+++ b/request_parser/utils/text.py
@@ -3,7 +3,7 @@ import htmlentitydefs
 
 _entity_re = re.compile(r"&(#?[xX]?(?:[0-9a-fA-F]+|\w{1,8}));")
 
-def _replace_entity(match):
+def _replace_entity(match, encoding):
     text = match.group(1)
     if text[0] == '#':
         text = text[1:]
@@ -12,14 +12,21 @@ def _replace_entity(match):
                 c = int(text[1:], 16)
             else:
                 c = int(text)
-            return chr(c)
+            return _encoded(c, encoding)
         except (ValueError, TypeError, OverflowError):
             return match.group(0)
     else:
         try:
-            return chr(htmlentitydefs.name2codepoint[text])
+            return _encoded(htmlentitydefs.name2codepoint[text], encoding)
         except (ValueError, KeyError):
             return match.group(0)
 
-def unescape_entities(text):
-    return _entity_re.sub(_replace_entity, str(text))
\ No newline at end of file
+def _encoded(codepoint, encoding):
+    if codepoint < 128:
+        return chr(codepoint)
+    if 0xD800 <= codepoint <= 0xDFFF:
+        raise ValueError("A surrogate is no character")
+    return unichr(codepoint).encode(encoding)
+
+def unescape_entities(text, encoding='utf-8'):
+    return _entity_re.sub(lambda match: _replace_entity(match, encoding), str(text))
\ No newline at end of file
-- 
2.43.0


From b5044f191bbe5363a46e6ae582f3a6d75cf8acf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:03 +0000
Subject: [PATCH 72/73] fix: a file around a file without a name is not closed

---
 request_parser/files/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/request_parser/files/utils.py b/request_parser/files/utils.py
index 97ee6b5..d9dc767 100644
--- a/request_parser/files/utils.py
+++ b/request_parser/files/utils.py
@@ -28,7 +28,7 @@ class FileProxyMixin:
 
     @property
     def closed(self):
-        return not self.file or self.file.closed
+        return self.file is None or self.file.closed
 
     def readable(self):
         if self.closed:
-- 
2.43.0


From 19fb22dcc16be6e10a79b6360a5f37ad8e38a62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:56 +0000
Subject: [PATCH 73/73] fix: a file whose field has an empty name is never
 completed

---
 request_parser/http/multipartparser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/request_parser/http/multipartparser.py b/request_parser/http/multipartparser.py
index d3a6222..c121050 100644
--- a/request_parser/http/multipartparser.py
+++ b/request_parser/http/multipartparser.py
@@ -165,7 +165,7 @@ class MultiPartParser:
 
         try:
             for item_type, meta_data, field_stream in Parser(stream, self._boundary):
-                if old_field_name:
+                if old_field_name is not None:
                     # We run this at the beginning of the next loop
                     # since we cannot be sure a file is complete until
                     # we hit the next boundary/part of the multipart content.
@@ -327,7 +327,7 @@ class MultiPartParser:
                 exhaust(self._input_data)
         else:
             # A file without a closing boundary never gets completed.
-            if old_field_name:
+            if old_field_name is not None:
                 self._close_files()
             # Make sure that the request data is all fed
             exhaust(self._input_data)
-- 
2.43.0

