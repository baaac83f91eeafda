From 66c729e68f772a0036be6f56db3068b8f0385389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:29 +0000
Subject: [PATCH 01/38] fix: process requests one at a time, sessions and sites
 are shared by all threads

---
 server/psi_request_handler.cpp | 3 +++
 server/psi_request_handler.hpp | 5 +++++
 2 files changed, 8 insertions(+)

diff --git a/server/psi_request_handler.cpp b/server/psi_request_handler.cpp
index 64a51db..6d76321 100644
--- a/server/psi_request_handler.cpp
+++ b/server/psi_request_handler.cpp
@@ -39,6 +39,9 @@ void PsiRequestHandler::handle_request(
 ) {
     http::server3::request req_modified = req;
 
+    // requests are read and answered concurrently but processed one at a time
+    boost::mutex::scoped_lock lock(mutex_);
+
     // session management
     SessionManager * sesMng = SessionManager::Instance();
     std::string id = SessionManager::SessionId(req_modified.get_header_value("Cookie"));
diff --git a/server/psi_request_handler.hpp b/server/psi_request_handler.hpp
index abe865f..1ef46c2 100644
--- a/server/psi_request_handler.hpp
+++ b/server/psi_request_handler.hpp
@@ -3,6 +3,8 @@
 #ifndef PSI_SERVER_HANDLER_HDR
 #define PSI_SERVER_HANDLER_HDR
 
+#include <boost/thread/mutex.hpp>
+
 #include "server/request_handler.hpp"
 
 class PsiServer;
@@ -19,6 +21,9 @@ public:
 private:
     PsiServer* psi_server_;
 
+    /// Sessions, sites and processors are shared by all threads of the server.
+    boost::mutex mutex_;
+
     static std::map<std::string, std::string> filesToContentTypes;
     static std::map<std::string, std::string> fileExceptionsToContentTypes;
 
-- 
2.43.0


From 7b3a3dc6d8b4e678fc42da345e0236c40dd14e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:29 +0000
Subject: [PATCH 02/38] fix: answer 500 when handling a request throws instead
 of ending the server

---
 server/server/connection.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/server/server/connection.cpp b/server/server/connection.cpp
index 9aa4d7e..131da2a 100644
--- a/server/server/connection.cpp
+++ b/server/server/connection.cpp
@@ -4,9 +4,11 @@
 //
 
 #include "connection.hpp"
+#include <exception>
 #include <vector>
 #include <boost/bind.hpp>
 #include "request_handler.hpp"
+#include "logging.hpp"
 
 namespace http {
 namespace server3 {
@@ -46,7 +48,15 @@ void connection::handle_read(const boost::system::error_code& e,
 
     if (result)
     {
-      request_handler_.handle_request(request_, reply_);
+      try
+      {
+        request_handler_.handle_request(request_, reply_);
+      }
+      catch (const std::exception& ex)
+      {
+        ERROR("Request handling failed: " << ex.what());
+        reply_ = reply::stock_reply(reply::internal_server_error);
+      }
       boost::asio::async_write(socket_, reply_.to_buffers(),
           strand_.wrap(
             boost::bind(&connection::handle_write, shared_from_this(),
-- 
2.43.0


From e8264b3f807f06be13043f136ae50ccf9fd32974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:29 +0000
Subject: [PATCH 03/38] fix: form data without '=' or with invalid %xx no
 longer hangs the server or reads garbage

---
 server/psi_server.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/server/psi_server.cpp b/server/psi_server.cpp
index 9e7a0c7..f3adcdc 100644
--- a/server/psi_server.cpp
+++ b/server/psi_server.cpp
@@ -183,6 +183,8 @@ void PsiServer::parseNamesAndValues(std::string uri, int q) {
 
     while (!flag_done) {
         q = uri.find("=", p);
+        if (q == -1) break;
+
         name = uri.substr(p, q-p);
         p = q + 1;
         q = uri.find("&", p);
@@ -215,12 +217,15 @@ std::string PsiServer::urlDecode(std::string & encodedString) {
 
     char ch;
     unsigned int i;
-    int j;
+    unsigned int j;
 
     for (i = 0; i < encodedString.length(); i++) {
 
         if (int(encodedString[i]) == 37) {
-            sscanf(encodedString.substr(i+1, 2).c_str(), "%2x", &j);
+            if (sscanf(encodedString.substr(i+1, 2).c_str(), "%2x", &j) != 1) {
+                decodedString += encodedString[i];
+                continue;
+            }
 
             ch = static_cast<char>(j);
             decodedString += ch;
-- 
2.43.0


From 87ab1d4a986488751b08bf4d0181a095425dca66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:19 +0000
Subject: [PATCH 04/38] fix: a POST request without data is complete after its
 headers

---
 server/server/request_parser.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/server/server/request_parser.cpp b/server/server/request_parser.cpp
index b7fc184..b7f596a 100644
--- a/server/server/request_parser.cpp
+++ b/server/server/request_parser.cpp
@@ -296,6 +296,10 @@ boost::tribool request_parser::consume(request& req, char input)
                 state_ = multipart_start;
             }
             set_post_data_length(req);
+            if (post_data_length_ <= 0) {
+                // there is no data to wait for
+                return true;
+            }
             return boost::indeterminate;
         }
         else {
-- 
2.43.0


From 667fd1e9dde1161b99316349013f55890d6883e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:19 +0000
Subject: [PATCH 05/38] fix: JSON replies, processor pages and initial output
 are not shared between sessions

---
 server/site/json_site.cpp                    |  9 +++-
 server/site/json_site.hpp                    |  1 +
 server/site/pipe_site.cpp                    |  3 --
 server/site/processor_documentation_site.cpp | 45 ++++++++++++--------
 server/site/processor_documentation_site.hpp |  5 ++-
 5 files changed, 39 insertions(+), 24 deletions(-)

diff --git a/server/site/json_site.cpp b/server/site/json_site.cpp
index 40f668b..2c4c7e7 100644
--- a/server/site/json_site.cpp
+++ b/server/site/json_site.cpp
@@ -12,6 +12,7 @@ const std::string JsonSite::PIPE_KEY_NAME = "pipe";
 const std::string JsonSite::INPUT_KEY_NAME = "input";
 const std::string JsonSite::OUTPUT_KEY_NAME = "output";
 const std::string JsonSite::ERROR_KEY_NAME = "error";
+const std::string JsonSite::REPLY_KEY_NAME = "json-reply";
 
 std::map<std::string, std::string> JsonSite::ESCAPED_CHARS =
     boost::assign::map_list_of
@@ -26,7 +27,7 @@ std::map<std::string, std::string> JsonSite::ESCAPED_CHARS =
 const std::vector<std::string> JsonSite::JSON_WRITERS = boost::assign::list_of
     ("json-simple-writer");
 
-JsonSite::JsonSite(PsiServer& server) : TemplateSite(server), output_("{}") {
+JsonSite::JsonSite(PsiServer& server) : TemplateSite(server) {
     psiServer_.registerIncludeCode(
         "json_site_output", boost::bind(&JsonSite::jsonOutput, this));
 
@@ -35,7 +36,10 @@ JsonSite::JsonSite(PsiServer& server) : TemplateSite(server), output_("{}") {
 }
 
 char * JsonSite::jsonOutput() {
-    return stringToChar(output_.str());
+    if (!psiServer_.session()->isData(REPLY_KEY_NAME)) {
+        return stringToChar("{}");
+    }
+    return stringToChar(psiServer_.session()->getData(REPLY_KEY_NAME));
 }
 
 char * JsonSite::actionJson() {
@@ -74,6 +78,7 @@ char * JsonSite::actionJson() {
     }
 
     output_ << " }";
+    psiServer_.session()->setData(REPLY_KEY_NAME, output_.str());
 
     return stringToChar(std::string("/json.html"));
 }
diff --git a/server/site/json_site.hpp b/server/site/json_site.hpp
index f6d45af..0df94d5 100644
--- a/server/site/json_site.hpp
+++ b/server/site/json_site.hpp
@@ -30,6 +30,7 @@ private:
     static const std::string INPUT_KEY_NAME;
     static const std::string OUTPUT_KEY_NAME;
     static const std::string ERROR_KEY_NAME;
+    static const std::string REPLY_KEY_NAME;
 
     static std::map<std::string, std::string> ESCAPED_CHARS;
     std::string escape_(const std::string &);
diff --git a/server/site/pipe_site.cpp b/server/site/pipe_site.cpp
index cccc779..9c2ce1e 100644
--- a/server/site/pipe_site.cpp
+++ b/server/site/pipe_site.cpp
@@ -98,9 +98,6 @@ char * PipeSite::actionPipe() {
     std::string output = runPipe_(pipe, input);
     psiServer_.session()->setData("output-text", output);
 
-    if (initialOutput_.empty())
-        initialOutput_ = output;
-
     return stringToChar(std::string("/psitoolkit.html"));
 }
 
diff --git a/server/site/processor_documentation_site.cpp b/server/site/processor_documentation_site.cpp
index cdc1eb4..d3d8093 100644
--- a/server/site/processor_documentation_site.cpp
+++ b/server/site/processor_documentation_site.cpp
@@ -8,12 +8,12 @@
 #include "html_help_formatter.hpp"
 
 const std::string ProcessorDocumentationSite::PROCESSOR_NAME_PARAM = "name";
+const std::string ProcessorDocumentationSite::CURRENT_NAME_KEY = "documentation-name";
+const std::string ProcessorDocumentationSite::CURRENT_DOCUMENTATION_KEY = "documentation-text";
 const std::string ProcessorDocumentationSite::PROCESSOR_NOT_FOUND = "processor not found";
 
 ProcessorDocumentationSite::ProcessorDocumentationSite(PsiServer& server)
-    : HelpTemplateSite(server),
-    name_(PROCESSOR_NOT_FOUND),
-    documentation_("")
+    : HelpTemplateSite(server)
 {
     htmlHelpFormatter_.setUseJavaScript(false);
 
@@ -30,18 +30,27 @@ ProcessorDocumentationSite::ProcessorDocumentationSite(PsiServer& server)
         boost::bind(&ProcessorDocumentationSite::actionProcessorDocumentation, this));
 }
 
+std::string ProcessorDocumentationSite::name_() {
+    if (!psiServer_.session()->isData(CURRENT_NAME_KEY)) {
+        return PROCESSOR_NOT_FOUND;
+    }
+    return psiServer_.session()->getData(CURRENT_NAME_KEY);
+}
+
 char * ProcessorDocumentationSite::processorName() {
-    return stringToChar(name_);
+    return stringToChar(name_());
 }
 
 char * ProcessorDocumentationSite::processorFullName() {
     std::string fullName = "unknown processor";
 
-    if (name_ != PROCESSOR_NOT_FOUND) {
-        fullName = htmlHelpFormatter_.getProcessorFullName(name_);
+    std::string name = name_();
+
+    if (name != PROCESSOR_NOT_FOUND) {
+        fullName = htmlHelpFormatter_.getProcessorFullName(name);
     }
     if (fullName.empty()) {
-        fullName = name_;
+        fullName = name;
     }
 
     fullName = std::string("<span class=\"fullName\">") + fullName + std::string("</span>");
@@ -49,28 +58,30 @@ char * ProcessorDocumentationSite::processorFullName() {
 }
 
 char * ProcessorDocumentationSite::processorDocumentation() {
-    if (documentation_.str().empty()) {
-        documentation_ << pageNotFoundMessage();
+    if (!psiServer_.session()->isData(CURRENT_DOCUMENTATION_KEY)) {
+        return stringToChar(pageNotFoundMessage());
     }
-    return stringToChar(documentation_.str());
+    return stringToChar(psiServer_.session()->getData(CURRENT_DOCUMENTATION_KEY));
 }
 
 char * ProcessorDocumentationSite::actionProcessorDocumentation() {
-    documentation_.str(std::string());
+    std::string name = PROCESSOR_NOT_FOUND;
+    std::ostringstream documentation;
 
     if (psiServer_.session()->isData(PROCESSOR_NAME_PARAM)) {
-        name_ = psiServer_.session()->getData(PROCESSOR_NAME_PARAM);
+        name = psiServer_.session()->getData(PROCESSOR_NAME_PARAM);
 
-        if (not htmlHelpFormatter_.formatProcessorHelpsByName(name_, documentation_)) {
-            documentation_ << "Processor <code>" << name_ << "</code> not found." << std::endl;
-            name_ = PROCESSOR_NOT_FOUND;
+        if (not htmlHelpFormatter_.formatProcessorHelpsByName(name, documentation)) {
+            documentation << "Processor <code>" << name << "</code> not found." << std::endl;
+            name = PROCESSOR_NOT_FOUND;
         }
     }
     else {
-        name_ = PROCESSOR_NOT_FOUND;
-        documentation_ << "Processor not specified.";
+        documentation << "Processor not specified.";
     }
 
+    psiServer_.session()->setData(CURRENT_NAME_KEY, name);
+    psiServer_.session()->setData(CURRENT_DOCUMENTATION_KEY, documentation.str());
     psiServer_.session()->clearData(PROCESSOR_NAME_PARAM);
     return stringToChar(std::string("/help/processor-documentation.html"));
 }
diff --git a/server/site/processor_documentation_site.hpp b/server/site/processor_documentation_site.hpp
index f4c37e5..5852b9a 100644
--- a/server/site/processor_documentation_site.hpp
+++ b/server/site/processor_documentation_site.hpp
@@ -19,10 +19,11 @@ public:
     char * processorDocumentationMenu();
 
 private:
-    std::string name_;
-    std::ostringstream documentation_;
+    std::string name_();
 
     static const std::string PROCESSOR_NAME_PARAM;
+    static const std::string CURRENT_NAME_KEY;
+    static const std::string CURRENT_DOCUMENTATION_KEY;
     static const std::string PROCESSOR_NOT_FOUND;
 };
 
-- 
2.43.0


From d41a4a8918c8da0c975fb9c43a4557c045a730cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:13 +0000
Subject: [PATCH 06/38] fix: threads no longer mix their log messages in one
 buffer

---
 common/logging.cpp | 35 ++++++++++++++++++++++-------------
 common/logging.hpp |  4 +++-
 2 files changed, 25 insertions(+), 14 deletions(-)

diff --git a/common/logging.cpp b/common/logging.cpp
index bc97766..8625891 100644
--- a/common/logging.cpp
+++ b/common/logging.cpp
@@ -67,63 +67,72 @@ void PSILogger::setNewLoggerAppender_(log4cpp::Appender * appender) {
     logger_category.setAppender(current_logger_appender);
 }
 
+std::stringstream & PSILogger::buffer_() {
+    // never deleted: static destructors may still log
+    static __thread std::stringstream * threadBuffer = NULL;
+    if (!threadBuffer) {
+        threadBuffer = new std::stringstream();
+    }
+    return *threadBuffer;
+}
+
 void PSILogger::flush(log4cpp::Priority::Value priorityLevel) {
-    logger_category.log(priorityLevel, buffer.str());
-    buffer.str("");
+    logger_category.log(priorityLevel, buffer_().str());
+    buffer_().str("");
 }
 
 PSILogger & PSILogger::operator<< (const std::string & msg) {
-    buffer << msg;
+    buffer_() << msg;
     return *this;
 }
 
 PSILogger & PSILogger::operator<< (const char * msg) {
-    buffer << msg;
+    buffer_() << msg;
     return *this;
 }
 
 PSILogger & PSILogger::operator<< (unsigned long msg) {
-    buffer << msg;
+    buffer_() << msg;
     return *this;
 }
 
 PSILogger & PSILogger::operator<< (signed long msg) {
-    buffer << msg;
+    buffer_() << msg;
     return *this;
 }
 
 PSILogger & PSILogger::operator<< (unsigned int msg) {
-    buffer << msg;
+    buffer_() << msg;
     return *this;
 }
 
 PSILogger & PSILogger::operator<< (signed int msg) {
-    buffer << msg;
+    buffer_() << msg;
     return *this;
 }
 
 PSILogger & PSILogger::operator<< (unsigned short msg) {
-    buffer << msg;
+    buffer_() << msg;
     return *this;
 }
 
 PSILogger & PSILogger::operator<< (signed short msg) {
-    buffer << msg;
+    buffer_() << msg;
     return *this;
 }
 
 PSILogger & PSILogger::operator<< (float msg) {
-    buffer << msg;
+    buffer_() << msg;
     return *this;
 }
 
 PSILogger & PSILogger::operator<< (double msg) {
-    buffer << msg;
+    buffer_() << msg;
     return *this;
 }
 
 PSILogger & PSILogger::operator<< (bool msg) {
-    buffer << msg;
+    buffer_() << msg;
     return *this;
 }
 
diff --git a/common/logging.hpp b/common/logging.hpp
index e3a746f..e427679 100644
--- a/common/logging.hpp
+++ b/common/logging.hpp
@@ -43,7 +43,9 @@ private:
     void addDefaultLayoutToAppender_(log4cpp::Appender * appender);
     void setNewLoggerAppender_(log4cpp::Appender * appender);
 
-    std::stringstream buffer;
+    /// The message being built by the calling thread.
+    std::stringstream & buffer_();
+
     log4cpp::Category & logger_category;
     log4cpp::Appender * current_logger_appender;
 };
-- 
2.43.0


From 67a6b000e636b0aa52fd3fdbb7fe0cc58c3bc3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:13 +0000
Subject: [PATCH 07/38] fix: stored files appear complete, keep their names to
 themselves, and failures to store give no link

---
 common/file_storage.cpp | 21 +++++++++++++++++++--
 common/file_storage.hpp |  1 +
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/common/file_storage.cpp b/common/file_storage.cpp
index c7e9f24..a93dc21 100644
--- a/common/file_storage.cpp
+++ b/common/file_storage.cpp
@@ -5,6 +5,7 @@
 #include <boost/filesystem/operations.hpp>
 #include <boost/filesystem/path.hpp>
 
+#include <cstdio>
 #include <iostream>
 #include <fstream>
 
@@ -14,6 +15,8 @@ const std::string FileStorage::DEFAULT_FILE_EXTENSION = "txt";
 
 const std::string FileStorage::STORAGE_DIR = "storage";
 
+const std::string FileStorage::TEMPORARY_SUFFIX = ".part";
+
 FileStorage::FileStorage(const std::string& rootPath)
     : guidGenerator_(GUID_LENGTH, true), websiteRoot_(rootPath + '/') {
 
@@ -44,6 +47,11 @@ std::string FileStorage::storeFile(const std::string& content) {
 std::string FileStorage::storeFile(const std::string& content, const std::string& ext) {
     std::string newGuid = guidGenerator_.getGUID();
 
+    // never replace the output somebody else has been given a link to
+    while (isFileStored_(newGuid, ext)) {
+        newGuid = guidGenerator_.getGUID();
+    }
+
     return storeFile_(content, newGuid, ext);
 }
 
@@ -55,12 +63,21 @@ std::string FileStorage::storeFile_(
     std::string pathToStore = filePathToStore_(fileName, ext);
     std::string pathForHtml = filePathForHtml_(fileName, ext);
 
-    INFO("File stored into: " << pathToStore);
+    // the file appears under its name only when it is complete
+    std::string temporaryPath = pathToStore + TEMPORARY_SUFFIX;
 
-    std::ofstream outfile(pathToStore.c_str());
+    std::ofstream outfile(temporaryPath.c_str(), std::ios::out | std::ios::binary);
     outfile << content;
     outfile.close();
 
+    if (!outfile || std::rename(temporaryPath.c_str(), pathToStore.c_str()) != 0) {
+        ERROR("File can not be stored into: " << pathToStore);
+        std::remove(temporaryPath.c_str());
+        return "";
+    }
+
+    INFO("File stored into: " << pathToStore);
+
     return pathForHtml;
 }
 
diff --git a/common/file_storage.hpp b/common/file_storage.hpp
index 3e260c8..afe9d24 100644
--- a/common/file_storage.hpp
+++ b/common/file_storage.hpp
@@ -38,6 +38,7 @@ private:
     static const int GUID_LENGTH;
     static const std::string DEFAULT_FILE_EXTENSION;
     static const std::string STORAGE_DIR;
+    static const std::string TEMPORARY_SUFFIX;
 };
 
 #endif
-- 
2.43.0


From 8b5b2700694a18c4ea6aea3f48336427c86bdbd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:38 +0000
Subject: [PATCH 08/38] fix: answer 500 instead of a truncated page when a
 website file can not be read

---
 server/server/request_handler.cpp | 5 +++++
 server/site/template_site.hpp     | 7 ++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/server/server/request_handler.cpp b/server/server/request_handler.cpp
index d25e1a0..fc50942 100644
--- a/server/server/request_handler.cpp
+++ b/server/server/request_handler.cpp
@@ -67,6 +67,11 @@ void request_handler::handle_request(const request& req, reply& rep)
   char buf[512];
   while (is.read(buf, sizeof(buf)).gcount() > 0)
     rep.content.append(buf, is.gcount());
+  if (is.bad())
+  {
+    rep = reply::stock_reply(reply::internal_server_error);
+    return;
+  }
   rep.headers.resize(2);
   rep.headers[0].name = "Content-Length";
   rep.headers[0].value = boost::lexical_cast<std::string>(rep.content.size());
diff --git a/server/site/template_site.hpp b/server/site/template_site.hpp
index 2f290c4..1f01410 100644
--- a/server/site/template_site.hpp
+++ b/server/site/template_site.hpp
@@ -4,8 +4,10 @@
 #include <fstream>
 #include <iostream>
 
+#include <stdexcept>
 #include <string>
 #include <boost/bind.hpp>
+#include <boost/filesystem/operations.hpp>
 
 #include "psi_server.hpp"
 
@@ -43,7 +45,10 @@ protected:
                 std::getline(myfile, line);
                 content += line + "\n";
             }
-            myfile.close();
+        }
+
+        if (myfile.bad() || (!myfile.is_open() && boost::filesystem::exists(filePath))) {
+            throw std::runtime_error("cannot read file " + filePath);
         }
 
         return content;
-- 
2.43.0


From 796208f06ccacd7a256acc7a68a4be7209969bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:38 +0000
Subject: [PATCH 09/38] fix: go on accepting connections after an error

---
 server/server/server.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/server/server/server.cpp b/server/server/server.cpp
index ad823b3..94bef19 100644
--- a/server/server/server.cpp
+++ b/server/server/server.cpp
@@ -69,11 +69,17 @@ void server::handle_accept(const boost::system::error_code& e)
   if (!e)
   {
     new_connection_->start();
-    new_connection_.reset(new connection(io_service_, request_handler_));
-    acceptor_.async_accept(new_connection_->socket(),
-        boost::bind(&server::handle_accept, this,
-          boost::asio::placeholders::error));
   }
+  else
+  {
+    ERROR("Connection can not be accepted: " << e.message());
+  }
+
+  // a failed attempt must not be the last one
+  new_connection_.reset(new connection(io_service_, request_handler_));
+  acceptor_.async_accept(new_connection_->socket(),
+      boost::bind(&server::handle_accept, this,
+        boost::asio::placeholders::error));
 }
 
 } // namespace server3
-- 
2.43.0


From e13a20af6dfe738f52dc5e36f637ffc3c96476a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:49 +0000
Subject: [PATCH 10/38] fix: a new session never takes the identifier of an
 existing one

---
 server/session_manager.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/server/session_manager.cpp b/server/session_manager.cpp
index 684ba30..54e59ea 100644
--- a/server/session_manager.cpp
+++ b/server/session_manager.cpp
@@ -57,6 +57,12 @@ Session * SessionManager::getSession(std::string & id) {
 
 Session * SessionManager::newSession() {
     std::string id = generateNewId();
+
+    // the clock and the counter of the generator may repeat themselves
+    while (isSession(id)) {
+        id = generateNewId();
+    }
+
     Session * ses = new Session(id);
     addSession(ses);
     return ses;
-- 
2.43.0


From aa75051ea38f00a7814ab8dc61c7830cde90e5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:20 +0000
Subject: [PATCH 11/38] fix: psi-pipe and PipeRunner report input and output
 errors instead of success

---
 framework/pipe_runner.cpp |  8 ++++++++
 framework/psi-pipe.cpp    | 11 +++++++++++
 2 files changed, 19 insertions(+)

diff --git a/framework/pipe_runner.cpp b/framework/pipe_runner.cpp
index 62159cd..ccccf92 100644
--- a/framework/pipe_runner.cpp
+++ b/framework/pipe_runner.cpp
@@ -701,11 +701,19 @@ int PipeRunner::run(const std::string& inputFilePath, const std::string& outputF
     std::ostream * outputStream =
         createOutputStreamOrReturnStandardOutput(outputFilePath);
     if (!outputStream) {
+        closeStreamWithStandardInputOrOutputCheck(inputStream, inputFilePath);
         return 1;
     }
 
     resultStatus = run(*inputStream, *outputStream);
 
+    outputStream->flush();
+    if (inputStream->bad() || !(*outputStream)) {
+        ERROR("Processing " << inputFilePath << " into " << outputFilePath
+            << " failed due to an input/output error");
+        resultStatus = 1;
+    }
+
     closeStreamWithStandardInputOrOutputCheck(inputStream, inputFilePath);
     closeStreamWithStandardInputOrOutputCheck(outputStream, outputFilePath);
 
diff --git a/framework/psi-pipe.cpp b/framework/psi-pipe.cpp
index a009358..4f951eb 100644
--- a/framework/psi-pipe.cpp
+++ b/framework/psi-pipe.cpp
@@ -1,3 +1,6 @@
+#include <cstdio>
+#include <iostream>
+#include <stdexcept>
 #include <string>
 
 #include "pipe_runner.hpp"
@@ -14,6 +17,14 @@ int main(int argc, char* argv[]) {
     try {
         PipeRunner pipeRunner(argc, argv);
         exit_code = pipeRunner.run(std::cin, std::cout);
+
+        std::cout.flush();
+        if (!std::cout || std::fflush(stdout) != 0 || std::ferror(stdout)) {
+            throw std::runtime_error("writing to the standard output failed");
+        }
+        if (std::cin.bad() || std::ferror(stdin)) {
+            throw std::runtime_error("reading from the standard input failed");
+        }
     } catch (std::exception& ex) {
         std::cerr << ex.what() << std::endl
                   << "ABORTED!" << std::endl;
-- 
2.43.0


From 1ef79dc8b823ae105cc91dda2dbb51626f6970a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:05 +0000
Subject: [PATCH 12/38] fix: stored outputs are sent as they are, without
 template expansion

---
 common/file_storage.hpp           |  3 ++-
 server/psi_request_handler.cpp    | 12 +++++++++++-
 server/psi_request_handler.hpp    |  3 +++
 server/server/request_handler.hpp |  9 +++++----
 4 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/common/file_storage.hpp b/common/file_storage.hpp
index afe9d24..3270aac 100644
--- a/common/file_storage.hpp
+++ b/common/file_storage.hpp
@@ -19,6 +19,8 @@ public:
 
     std::string storeFileByMD5(const std::string& content, const std::string& ext);
 
+    static const std::string STORAGE_DIR;
+
 private:
 
     GUIDGenerator guidGenerator_;
@@ -37,7 +39,6 @@ private:
 
     static const int GUID_LENGTH;
     static const std::string DEFAULT_FILE_EXTENSION;
-    static const std::string STORAGE_DIR;
     static const std::string TEMPORARY_SUFFIX;
 };
 
diff --git a/server/psi_request_handler.cpp b/server/psi_request_handler.cpp
index 6d76321..1f77472 100644
--- a/server/psi_request_handler.cpp
+++ b/server/psi_request_handler.cpp
@@ -1,5 +1,6 @@
 #include "psi_request_handler.hpp"
 #include "session_manager.hpp"
+#include "file_storage.hpp"
 #include "logging.hpp"
 
 #include <boost/lexical_cast.hpp>
@@ -65,7 +66,9 @@ void PsiRequestHandler::handle_request(
     //handle request
     psi_server_->checkForAction(req_modified);
     http::server3::request_handler::handle_request(req_modified, rep);
-    psi_server_->include(rep.content);
+    if (!isStoredOutput(req_modified.uri)) {
+        psi_server_->include(rep.content);
+    }
 
     rep.headers[0].value = boost::lexical_cast<std::string>(rep.content.size());
     rep.headers[1].value = getContentType(req.uri);
@@ -82,6 +85,13 @@ void PsiRequestHandler::handle_request(
     }
 }
 
+bool PsiRequestHandler::isStoredOutput(const std::string & uri) {
+    std::string path;
+
+    return url_decode(uri, path)
+        && path.find("/" + FileStorage::STORAGE_DIR + "/") != std::string::npos;
+}
+
 std::string PsiRequestHandler::getContentType(const std::string & uri) {
     std::string content = "";
     std::map<std::string, std::string>::iterator type;
diff --git a/server/psi_request_handler.hpp b/server/psi_request_handler.hpp
index 1ef46c2..4371d67 100644
--- a/server/psi_request_handler.hpp
+++ b/server/psi_request_handler.hpp
@@ -27,6 +27,9 @@ private:
     static std::map<std::string, std::string> filesToContentTypes;
     static std::map<std::string, std::string> fileExceptionsToContentTypes;
 
+    /// Outputs of pipelines are sent as they are, they are not website templates.
+    bool isStoredOutput(const std::string & uri);
+
     std::string getContentType(const std::string & uri);
     std::string getFileName(const std::string & uri);
     std::string getFileExtension(std::string fileName);
diff --git a/server/server/request_handler.hpp b/server/server/request_handler.hpp
index 60945bc..2ef85ac 100644
--- a/server/server/request_handler.hpp
+++ b/server/server/request_handler.hpp
@@ -28,13 +28,14 @@ public:
 
   virtual ~request_handler() {};
 
-private:
-  /// The directory containing the files to be served.
-  std::string doc_root_;
-
+protected:
   /// Perform URL-decoding on a string. Returns false if the encoding was
   /// invalid.
   static bool url_decode(const std::string& in, std::string& out);
+
+private:
+  /// The directory containing the files to be served.
+  std::string doc_root_;
 };
 
 } // namespace server3
-- 
2.43.0


From 4faaab2e43ae09622986fe60c53df93074c34468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:10 +0000
Subject: [PATCH 13/38] fix: a read error in tokenizer or puddle rules ends
 loading instead of looping for ever

---
 tools/parsers/puddle/rule_loader.cpp             |  5 ++++-
 tools/parsers/puddle/tagset.cpp                  | 12 ++++++++++--
 .../tp/tp_basic_tokenizer_rule_set.cpp           | 16 +++++++++++++---
 3 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/tools/parsers/puddle/rule_loader.cpp b/tools/parsers/puddle/rule_loader.cpp
index 56229da..4f2f23e 100644
--- a/tools/parsers/puddle/rule_loader.cpp
+++ b/tools/parsers/puddle/rule_loader.cpp
@@ -42,7 +42,7 @@ RulesPtr RuleLoader::readFromFile(std::string &filename) {
 
     std::string ruleString = "";
 
-    while (!ruleFile.eof()) {
+    while (ruleFile.good()) {
         std::string line;
         getline(ruleFile, line);
 
@@ -66,6 +66,9 @@ RulesPtr RuleLoader::readFromFile(std::string &filename) {
             ruleString += line;
         }
     }
+    if (ruleFile.bad()) {
+        throw PuddleIOException("Could not read rules file: '" + filename + "'.");
+    }
     if (ruleString != "") {
         RulePtr rule = parseRuleString(ruleString);
         rules->push_back(rule);
diff --git a/tools/parsers/puddle/tagset.cpp b/tools/parsers/puddle/tagset.cpp
index 5b9642a..9a2201c 100644
--- a/tools/parsers/puddle/tagset.cpp
+++ b/tools/parsers/puddle/tagset.cpp
@@ -37,7 +37,7 @@ void Tagset::readFromFile (std::string &filename) {
     Pattern regWhite( "\\s+" );
     Pattern regOpenClasses( "\\s*[^\\s]+(\\s\\s*[^\\s]+\\s*)*\\s*" );
 
-    while (!tagsetFile.eof())
+    while (tagsetFile.good())
     {
         std::string line;
         getline(tagsetFile, line);
@@ -94,6 +94,10 @@ void Tagset::readFromFile (std::string &filename) {
         }
     }
 
+    if (tagsetFile.bad()) {
+        throw PuddleIOException("Could not read tagset file '" + filename + "'.");
+    }
+
     tagsetFile.close();
 
     generateProperMorphologyLabels();
@@ -222,7 +226,7 @@ void Tagset::readDescFromFile(std::string &filename) {
     bool includepos = false;
     desc_separator = "#";
 
-    while (!tagsetFile.eof()) {
+    while (tagsetFile.good()) {
         std::string line;
         getline(tagsetFile, line);
 
@@ -393,6 +397,10 @@ void Tagset::readDescFromFile(std::string &filename) {
             }
         }
     }
+    if (tagsetFile.bad()) {
+        throw PuddleIOException("Could not read description file '" + filename + "'.");
+    }
+
     tagsetFile.close();
 }
 
diff --git a/tools/tokenizers/tp/tp_basic_tokenizer_rule_set.cpp b/tools/tokenizers/tp/tp_basic_tokenizer_rule_set.cpp
index b61883a..21638ca 100644
--- a/tools/tokenizers/tp/tp_basic_tokenizer_rule_set.cpp
+++ b/tools/tokenizers/tp/tp_basic_tokenizer_rule_set.cpp
@@ -42,7 +42,7 @@ void TPBasicTokenizerRuleSet::loadWholeElement(std::istream& input, std::string&
 
     while ((Escaping::isEscaped(line, line.length())
             || removeComments(buffCopy))
-           && !input.eof()) {
+           && input.good()) {
 
         buff += "@";
         std::getline(input, line, '@');
@@ -584,7 +584,7 @@ void TPBasicTokenizerRuleSet::subLoad(
                 std::list<IfElem> ifstack;
                 size_t filePos = 1;
 
-                while (!ins.eof()) {
+                while (ins.good()) {
 
                     size_t beginPos = filePos;
                     loadWholeElement(ins, buffer, filePos);
@@ -663,6 +663,11 @@ void TPBasicTokenizerRuleSet::subLoad(
                     }
                 }
 
+                if (ins.bad())
+                    throw TPTokenizerException(
+                        std::string("file cannot be read: `")
+                        + fileName + "'");
+
                 ins.close();
 
                 if (!ifstack.empty())
@@ -723,7 +728,7 @@ void TPBasicTokenizerRuleSet::load(
                     std::list<IfElem> ifstack;
                     size_t filePos = 1;
 
-                    while (!ins.eof()) {
+                    while (ins.good()) {
 
                         size_t beginPos = filePos;
                         loadWholeElement(ins, buffer, filePos);
@@ -794,6 +799,11 @@ void TPBasicTokenizerRuleSet::load(
                         }
                     }
 
+                    if (ins.bad())
+                        throw TPTokenizerException(
+                            std::string("file cannot be read: `")
+                            + fileName + "'");
+
                     ins.close();
 
                     if (!ifstack.empty())
-- 
2.43.0


From 52accc24e6084745500b581ce50cee9a1445c12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:03 +0000
Subject: [PATCH 14/38] fix: throw exceptions by value so that they are caught
 and reported

---
 tools/lemmatizers/lamerlemma/lamerlemma.cpp         | 4 ++--
 tools/lexica/bilexicon/bilexicon.cpp                | 4 ++--
 tools/lexica/mapper/mapper.cpp                      | 4 ++--
 tools/tokenizers/tp/tp_basic_tokenizer_rule_set.cpp | 6 +++---
 4 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/tools/lemmatizers/lamerlemma/lamerlemma.cpp b/tools/lemmatizers/lamerlemma/lamerlemma.cpp
index caca83f..33d0fb2 100644
--- a/tools/lemmatizers/lamerlemma/lamerlemma.cpp
+++ b/tools/lemmatizers/lamerlemma/lamerlemma.cpp
@@ -15,7 +15,7 @@ LamerLemma::LamerLemma(const boost::program_options::variables_map& options)
     if (options.count("plain-text-lexicon")) {
         if (options.count("binary-lexicon")
             && options["binary-lexicon"].as<std::string>() != DEFAULT_LAMERLEMMA_SPEC)
-            throw new PsiException(
+            throw PsiException(
                 "either --plain-text-lexicon or --binary-lexicon expected, not both");
 
         boost::filesystem::path plainTextLexiconPath =
@@ -33,7 +33,7 @@ LamerLemma::LamerLemma(const boost::program_options::variables_map& options)
 
     if (options.count("save-binary-lexicon")) {
         if (dict_.isEmpty())
-            throw new PsiException("no data to save");
+            throw PsiException("no data to save");
 
         boost::filesystem::path binaryLexiconPath(
             options["save-binary-lexicon"].as<std::string>());
diff --git a/tools/lexica/bilexicon/bilexicon.cpp b/tools/lexica/bilexicon/bilexicon.cpp
index 04d1b12..3111fdc 100644
--- a/tools/lexica/bilexicon/bilexicon.cpp
+++ b/tools/lexica/bilexicon/bilexicon.cpp
@@ -23,7 +23,7 @@ BiLexicon::BiLexicon(const boost::program_options::variables_map& options) {
     if (options.count("plain-text-lexicon") > 0) {
         if (options.count("binary-lexicon") > 0
             && options["binary-lexicon"].as<std::string>() != DEFAULT_BINARY_LEXICON_SPEC)
-            throw new Exception(
+            throw Exception(
                 "either --plain-text-lexicon or --binary-lexicon expected, not both");
 
         boost::filesystem::path plainTextLexiconPath =
@@ -41,7 +41,7 @@ BiLexicon::BiLexicon(const boost::program_options::variables_map& options) {
 
     if (options.count("save-binary-lexicon") > 0) {
         if (lexiconBase_.isEmpty())
-            throw new Exception("no data to save");
+            throw Exception("no data to save");
 
         boost::filesystem::path binaryLexiconPath(
             options["save-binary-lexicon"].as<std::string>());
diff --git a/tools/lexica/mapper/mapper.cpp b/tools/lexica/mapper/mapper.cpp
index 16dda7a..63b7f65 100644
--- a/tools/lexica/mapper/mapper.cpp
+++ b/tools/lexica/mapper/mapper.cpp
@@ -108,7 +108,7 @@ Mapper::Mapper(const boost::program_options::variables_map& options) {
     else {
         if (options.count("plain-text-lexicon") > 0) {
             if (options.count("binary-lexicon") > 0)
-                throw new Exception(
+                throw Exception(
                     "either --plain-text-lexicon or --binary-lexicon expected, not both");
 
             boost::filesystem::path plainTextLexiconPath =
@@ -126,7 +126,7 @@ Mapper::Mapper(const boost::program_options::variables_map& options) {
 
         if (options.count("save-binary-lexicon") > 0) {
             if (lexiconBase_.isEmpty())
-                throw new Exception("no data to save");
+                throw Exception("no data to save");
 
             boost::filesystem::path binaryLexiconPath(
                 options["save-binary-lexicon"].as<std::string>());
diff --git a/tools/tokenizers/tp/tp_basic_tokenizer_rule_set.cpp b/tools/tokenizers/tp/tp_basic_tokenizer_rule_set.cpp
index 21638ca..683af33 100644
--- a/tools/tokenizers/tp/tp_basic_tokenizer_rule_set.cpp
+++ b/tools/tokenizers/tp/tp_basic_tokenizer_rule_set.cpp
@@ -124,7 +124,7 @@ bool TPBasicTokenizerRuleSet::changeHereDoc(std::string& strg) {
         std::string restS = rest.as_string();
         size_t markerPos = restS.find(marker);
         if (markerPos == std::string::npos)
-            throw new TPTokenizerException("wrong here doc for `" + marker + "'");
+            throw TPTokenizerException("wrong here doc for `" + marker + "'");
 
         std::string hereDocBody = restS.substr(0, markerPos);
 
@@ -249,7 +249,7 @@ std::string TPBasicTokenizerRuleSet::getContent(
 
     PerlStringPiece bufferPiece(buffer);
     if (!PerlRegExp::FindAndConsume(&bufferPiece, ruleName, &target))
-        throw new TPTokenizerException(msg + context + " at line: " + itoa(filePos));
+        throw TPTokenizerException(msg + context + " at line: " + itoa(filePos));
 
     buffer = bufferPiece.as_string();
 
@@ -265,7 +265,7 @@ void TPBasicTokenizerRuleSet::isEmpty(
     PerlRegExp empty("^\\s+$");
 
     if (PerlRegExp::FullMatch(buffer, empty))
-        throw new TPTokenizerException(std::string(msg) + "in: "+ context + "at: " + itoa(filePos));
+        throw TPTokenizerException(std::string(msg) + "in: "+ context + "at: " + itoa(filePos));
 }
 
 void TPBasicTokenizerRuleSet::readRule(
-- 
2.43.0


From 307ab0dbe780bd637c694b8895d0b185f83181ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:40 +0000
Subject: [PATCH 15/38] fix: data files that can not be read to the end are an
 error, not shorter data

---
 common/stream_helpers.cpp                               | 7 +++++++
 common/stream_helpers.hpp                               | 7 +++++++
 tools/converters/unumsunt/unumsunt.cpp                  | 2 ++
 tools/datastructures/lexica/lexicon_base.cpp            | 3 +++
 tools/datastructures/psi_query/fsa_lexicon_base.cpp     | 3 +++
 tools/lemmatizers/lamerlemma/dictionary.cpp             | 2 ++
 tools/normalizers/simplenorm/simplenorm_normalizer.cpp  | 2 ++
 tools/parsers/gobio/gobio.cpp                           | 3 +++
 tools/recognizers/langguesser/bigram_language_model.cpp | 3 +++
 9 files changed, 32 insertions(+)

diff --git a/common/stream_helpers.cpp b/common/stream_helpers.cpp
index 9787f6c..5413230 100644
--- a/common/stream_helpers.cpp
+++ b/common/stream_helpers.cpp
@@ -1,5 +1,7 @@
 #include "stream_helpers.hpp"
 
+#include "psi_exception.hpp"
+
 #include <sstream>
 
 std::string getStartingDataWithoutTouchingStream(std::istream& stream, int size) {
@@ -43,3 +45,8 @@ std::string getDataWithoutTouchingIStream(std::istream& stream) {
 
     return data;
 }
+
+void checkFileRead(const std::istream& stream, const std::string& fileName) {
+    if (stream.bad())
+        throw PsiException(std::string("cannot read file `") + fileName + "'");
+}
diff --git a/common/stream_helpers.hpp b/common/stream_helpers.hpp
index 8db9d64..77fd49b 100644
--- a/common/stream_helpers.hpp
+++ b/common/stream_helpers.hpp
@@ -2,6 +2,7 @@
 #define STREAM_HELPERS_HDR_HDR
 
 #include <iostream>
+#include <string>
 
 std::string getStartingDataWithoutTouchingStream(std::istream& stream, int size);
 
@@ -10,4 +11,10 @@ void setDataToIStream(std::istream& stream, std::string data);
 
 std::string getDataWithoutTouchingIStream(std::istream& stream);
 
+/**
+ * To be called after the whole file was read: throws an exception if reading
+ * ended with an error rather than at the end of the file.
+ */
+void checkFileRead(const std::istream& stream, const std::string& fileName);
+
 #endif
diff --git a/tools/converters/unumsunt/unumsunt.cpp b/tools/converters/unumsunt/unumsunt.cpp
index d8ca213..06dfb08 100644
--- a/tools/converters/unumsunt/unumsunt.cpp
+++ b/tools/converters/unumsunt/unumsunt.cpp
@@ -15,6 +15,7 @@
 
 #include "annotation_item.hpp"
 #include "annotation_item_manager.hpp"
+#include "stream_helpers.hpp"
 #include "zvalue.hpp"
 
 
@@ -216,6 +217,7 @@ Unumsunt::Unumsunt(
             }
         }
     }
+    checkFileRead(rulesFs, rulesPath);
 }
 
 
diff --git a/tools/datastructures/lexica/lexicon_base.cpp b/tools/datastructures/lexica/lexicon_base.cpp
index e313c46..8d8646d 100644
--- a/tools/datastructures/lexica/lexicon_base.cpp
+++ b/tools/datastructures/lexica/lexicon_base.cpp
@@ -1,6 +1,7 @@
 #include "config.hpp"
 #include "lexicon_base.hpp"
 #include "logging.hpp"
+#include "stream_helpers.hpp"
 
 #include <boost/filesystem/fstream.hpp>
 #include <boost/algorithm/string.hpp>
@@ -62,6 +63,8 @@ void LexiconBase::readPlainText(const boost::filesystem::path& plainTextLexicon)
         }
     }
 
+    checkFileRead(plainTextStream, plainTextLexicon.string());
+
     if (!firstEntry)
         storeBuilder.add(prevKey, stringSoFar);
 
diff --git a/tools/datastructures/psi_query/fsa_lexicon_base.cpp b/tools/datastructures/psi_query/fsa_lexicon_base.cpp
index 235bd0f..ecccae3 100644
--- a/tools/datastructures/psi_query/fsa_lexicon_base.cpp
+++ b/tools/datastructures/psi_query/fsa_lexicon_base.cpp
@@ -1,6 +1,7 @@
 #include "config.hpp"
 #include "fsa_lexicon_base.hpp"
 #include "logging.hpp"
+#include "stream_helpers.hpp"
 
 #include <boost/filesystem/fstream.hpp>
 #include <boost/algorithm/string.hpp>
@@ -46,6 +47,8 @@ void FSALexiconBase::readPlainText(const boost::filesystem::path& plainTextLexic
         storeBuilder.add(key, value);
     }
 
+    checkFileRead(plainTextStream, plainTextLexicon.string());
+
     store_.reset(storeBuilder.build());
 }
 
diff --git a/tools/lemmatizers/lamerlemma/dictionary.cpp b/tools/lemmatizers/lamerlemma/dictionary.cpp
index a980f28..cd33aea 100644
--- a/tools/lemmatizers/lamerlemma/dictionary.cpp
+++ b/tools/lemmatizers/lamerlemma/dictionary.cpp
@@ -1,5 +1,6 @@
 #include "dictionary.hpp"
 #include "logging.hpp"
+#include "stream_helpers.hpp"
 
 #include <boost/lexical_cast.hpp>
 
@@ -13,6 +14,7 @@ void Dictionary::readDictionary(const std::string& filename)
     in.open(filename.c_str());
     fsa::FSAMultiStore::Builder builder;
     builder.createFromSeparatedLines(LineIterator(in), LineIterator());
+    checkFileRead(in, filename);
     store_.reset(builder.build());
     in.close();
     INFO("Done");
diff --git a/tools/normalizers/simplenorm/simplenorm_normalizer.cpp b/tools/normalizers/simplenorm/simplenorm_normalizer.cpp
index d4ad9bc..8509a18 100644
--- a/tools/normalizers/simplenorm/simplenorm_normalizer.cpp
+++ b/tools/normalizers/simplenorm/simplenorm_normalizer.cpp
@@ -12,6 +12,7 @@
 #include "layer_tag_collection.hpp"
 #include "layer_tag_mask.hpp"
 #include "logging.hpp"
+#include "stream_helpers.hpp"
 
 
 Annotator* SimplenormNormalizer::Factory::doCreateAnnotator(
@@ -99,6 +100,7 @@ SimplenormNormalizer::SimplenormNormalizer(
         boost::split(pair, line, boost::is_any_of("\t"));
         normalization_map_[pair[0]] = pair[1];
     }
+    checkFileRead(fin, rules.string());
 }
 
 
diff --git a/tools/parsers/gobio/gobio.cpp b/tools/parsers/gobio/gobio.cpp
index 5f64566..f39c13b 100644
--- a/tools/parsers/gobio/gobio.cpp
+++ b/tools/parsers/gobio/gobio.cpp
@@ -9,6 +9,8 @@
 
 #include "put_zsyntree_into_lattice.hpp"
 
+#include "stream_helpers.hpp"
+
 Annotator* Gobio::Factory::doCreateAnnotator(
     const boost::program_options::variables_map & options
 ) {
@@ -141,6 +143,7 @@ Gobio::Gobio(
             atCategories_.insert(atSymbol);
         }
     }
+    checkFileRead(rulesFs, rulesPath);
 }
 
 void Gobio::parse(Lattice & lattice) {
diff --git a/tools/recognizers/langguesser/bigram_language_model.cpp b/tools/recognizers/langguesser/bigram_language_model.cpp
index bbef03e..2fd7e80 100644
--- a/tools/recognizers/langguesser/bigram_language_model.cpp
+++ b/tools/recognizers/langguesser/bigram_language_model.cpp
@@ -12,6 +12,7 @@
 #include "bigram_language_model.hpp"
 
 #include "processor_file_fetcher.hpp"
+#include "stream_helpers.hpp"
 #include "utf8/utf8.h"
 
 #include <iostream>
@@ -36,6 +37,8 @@ BigramLanguageModel::BigramLanguageModel(boost::filesystem::path pathToLangFile)
         langFile >> table_[i++];
     }
 
+    checkFileRead(langFile, pathToLangFile.string());
+
     langFile.close();
 }
 
-- 
2.43.0


From 5df1c31689d0a3039a9ce0f4b9058fecb4e6fa13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:35 +0000
Subject: [PATCH 16/38] fix: binary lexicons are saved completely or not at
 all, and unreadable ones are reported

---
 .../datastructures/lexica/key_value_store.cpp | 23 +++++++++++++++++--
 tools/datastructures/lexica/lexicon_base.cpp  | 11 ++++++++-
 .../lexica/perfect_hash_index.cpp             |  6 ++++-
 .../datastructures/psi_query/fsa_bindfsa.hpp  | 13 ++++++++---
 .../psi_query/fsa_multi_store.cpp             |  5 ++++
 tools/lemmatizers/lamerlemma/dictionary.cpp   | 13 ++++++++++-
 6 files changed, 63 insertions(+), 8 deletions(-)

diff --git a/tools/datastructures/lexica/key_value_store.cpp b/tools/datastructures/lexica/key_value_store.cpp
index 78803ef..2b28a33 100644
--- a/tools/datastructures/lexica/key_value_store.cpp
+++ b/tools/datastructures/lexica/key_value_store.cpp
@@ -1,6 +1,9 @@
 #include "key_value_store.hpp"
 
 #include <assert.h>
+#include <fstream>
+#include <sstream>
+#include <stdexcept>
 #include <vector>
 
 KeyValueStore::Builder::Builder()
@@ -61,9 +64,21 @@ void KeyValueStore::load(std::FILE* mphf) {
 }
 
 void KeyValueStore::load(const std::string& filename) {
-    std::FILE* mphf = std::fopen(filename.c_str(), "r");
+    std::ifstream in(filename.c_str(), std::ios::in | std::ios::binary);
+    std::ostringstream content;
+    content << in.rdbuf();
+    std::string data = content.str();
+    if (!in || data.empty())
+        throw std::runtime_error("cannot read file `" + filename + "'");
+
+    std::FILE* mphf = fmemopen(&data[0], data.size(), "r");
+    if (!mphf)
+        throw std::runtime_error("cannot read file `" + filename + "'");
     load(mphf);
+    bool tooShort = std::feof(mphf);
     std::fclose(mphf);
+    if (tooShort)
+        throw std::runtime_error("unexpected end of file `" + filename + "'");
 }
 
 void KeyValueStore::save(std::FILE* mphf) const {
@@ -73,6 +88,10 @@ void KeyValueStore::save(std::FILE* mphf) const {
 
 void KeyValueStore::save(const std::string& filename) const {
     std::FILE* mphf = std::fopen(filename.c_str(), "w");
+    if (!mphf)
+        throw std::runtime_error("cannot open file `" + filename + "' for writing");
     save(mphf);
-    std::fclose(mphf);
+    bool failed = std::ferror(mphf);
+    if (std::fclose(mphf) != 0 || failed)
+        throw std::runtime_error("cannot write file `" + filename + "'");
 }
diff --git a/tools/datastructures/lexica/lexicon_base.cpp b/tools/datastructures/lexica/lexicon_base.cpp
index 8d8646d..f582de3 100644
--- a/tools/datastructures/lexica/lexicon_base.cpp
+++ b/tools/datastructures/lexica/lexicon_base.cpp
@@ -74,7 +74,16 @@ void LexiconBase::readPlainText(const boost::filesystem::path& plainTextLexicon)
 void LexiconBase::saveBinary(const boost::filesystem::path& binaryLexiconPath) {
     WARN("saving lexicon to `" << binaryLexiconPath.string() << "`");
 
-    store_->save(binaryLexiconPath.string());
+    // the lexicon appears under its name only when it is complete
+    boost::filesystem::path partialPath(binaryLexiconPath.string() + ".part");
+    try {
+        store_->save(partialPath.string());
+        boost::filesystem::rename(partialPath, binaryLexiconPath);
+    } catch (...) {
+        boost::system::error_code ignored;
+        boost::filesystem::remove(partialPath, ignored);
+        throw;
+    }
 
     WARN("lexicon saved");
 }
diff --git a/tools/datastructures/lexica/perfect_hash_index.cpp b/tools/datastructures/lexica/perfect_hash_index.cpp
index 752b9cf..e03cf71 100644
--- a/tools/datastructures/lexica/perfect_hash_index.cpp
+++ b/tools/datastructures/lexica/perfect_hash_index.cpp
@@ -1,6 +1,7 @@
 #include "perfect_hash_index.hpp"
 
 #include <assert.h>
+#include <stdexcept>
 
 static int key_phrasetable_read(void* data, char** key, cmph_uint32* keylen) {
     FILE* fd = (FILE*)data;
@@ -104,7 +105,10 @@ void PerfectHashIndex::load(std::string filename) {
 void PerfectHashIndex::load(std::FILE* mphf) {
     m_hash = cmph_load(mphf);
 
-    size_t nkeys;
+    if (!m_hash)
+        throw std::runtime_error("cannot load a perfect hash function");
+
+    size_t nkeys = 0;
     std::fread(&nkeys, sizeof(nkeys), 1, mphf);
     m_fprints.resize(nkeys, 0);
     std::fread(&m_fprints[0], sizeof(Fprint), nkeys, mphf);
diff --git a/tools/datastructures/psi_query/fsa_bindfsa.hpp b/tools/datastructures/psi_query/fsa_bindfsa.hpp
index f263ac7..5f5aa0d 100644
--- a/tools/datastructures/psi_query/fsa_bindfsa.hpp
+++ b/tools/datastructures/psi_query/fsa_bindfsa.hpp
@@ -7,6 +7,7 @@
 #include <algorithm>
 #include <iostream>
 #include <fstream>
+#include <sstream>
 
 #include <boost/foreach.hpp>
 #include <boost/optional.hpp>
@@ -334,15 +335,18 @@ void BinDFSA<ArcT, PosT, Allocator>::load(IStream& in) {
       istream.push(boost::iostreams::gzip_decompressor());
       istream.push(in);
 
-      uint64_t statesNum;
+      uint64_t statesNum = 0;
       istream.read((char*)&statesNum, sizeof(uint64_t));
       m_states.resize(statesNum);
       istream.read((char*)&m_states[0], statesNum * sizeof(PosT));
 
-      uint64_t arcsNum;
+      uint64_t arcsNum = 0;
       istream.read((char*)&arcsNum, sizeof(uint64_t));
       m_arcs.resize(arcsNum);
       istream.read((char*)&m_arcs[0], arcsNum * sizeof(ArcT));
+
+      if (!istream)
+          in.setstate(std::ios_base::badbit);
   }
   in.seekg(end);
 }
@@ -360,10 +364,11 @@ void BinDFSA<ArcT, PosT, Allocator>::save(OStream& out) {
 
   uint64_t start = out.tellp();
   out.write((char*) &start, sizeof(uint64_t)); //make some space;
+  std::ostringstream compressed;
   {
       boost::iostreams::filtering_ostream ostream;
       ostream.push(boost::iostreams::gzip_compressor());
-      ostream.push(out);
+      ostream.push(compressed);
 
       uint64_t statesNum = m_states.size();
       ostream.write((char*)&statesNum, sizeof(uint64_t));
@@ -373,6 +378,8 @@ void BinDFSA<ArcT, PosT, Allocator>::save(OStream& out) {
       ostream.write((char*)&arcsNum, sizeof(uint64_t));
       ostream.write((char*)&m_arcs[0], arcsNum * sizeof(ArcT));
   }
+  const std::string data = compressed.str();
+  out.write(data.data(), data.size());
   // Some magic to remember the exact gzip stream end:
   uint64_t end = out.tellp();
   out.seekp(start); //jump to start;
diff --git a/tools/datastructures/psi_query/fsa_multi_store.cpp b/tools/datastructures/psi_query/fsa_multi_store.cpp
index 36244a7..73f50f0 100644
--- a/tools/datastructures/psi_query/fsa_multi_store.cpp
+++ b/tools/datastructures/psi_query/fsa_multi_store.cpp
@@ -1,5 +1,6 @@
 #include "config.hpp"
 #include "fsa_multi_store.hpp"
+#include "psi_exception.hpp"
 
 namespace fsa {
 
@@ -45,6 +46,8 @@ void FSAMultiStore::load(const std::string& filename)
 {
     std::ifstream in(filename.c_str(), std::ios::in|std::ios::binary);
     load(in);
+    if (!in)
+        throw PsiException(std::string("cannot read file `") + filename + "'");
     in.close();
 }
 
@@ -58,6 +61,8 @@ void FSAMultiStore::save(const std::string& filename)
     std::ofstream out(filename.c_str(), std::ios::out|std::ios::binary);
     save(out);
     out.close();
+    if (!out)
+        throw PsiException(std::string("cannot write file `") + filename + "'");
 }
 
 void FSAMultiStore::save(std::ostream &out)
diff --git a/tools/lemmatizers/lamerlemma/dictionary.cpp b/tools/lemmatizers/lamerlemma/dictionary.cpp
index cd33aea..f986906 100644
--- a/tools/lemmatizers/lamerlemma/dictionary.cpp
+++ b/tools/lemmatizers/lamerlemma/dictionary.cpp
@@ -1,7 +1,10 @@
 #include "dictionary.hpp"
 #include "logging.hpp"
+#include "psi_exception.hpp"
 #include "stream_helpers.hpp"
 
+#include <cstdio>
+
 #include <boost/lexical_cast.hpp>
 
 Dictionary::Dictionary()
@@ -24,6 +27,8 @@ void Dictionary::load(std::string file_name) {
     std::ifstream in;
     in.open(file_name.c_str(), std::ios::in|std::ios::binary);
     load(in);
+    if (!in)
+        throw PsiException(std::string("cannot read file `") + file_name + "'");
     in.close();
 }
 
@@ -35,9 +40,15 @@ void Dictionary::load(std::ifstream &in) {
 }
 
 void Dictionary::save(std::string file_name) {
-    std::ofstream out(file_name.c_str(), std::ios::out|std::ios::binary);
+    // the dictionary appears under its name only when it is complete
+    std::string partial = file_name + ".part";
+    std::ofstream out(partial.c_str(), std::ios::out|std::ios::binary);
     save(out);
     out.close();
+    if (!out || std::rename(partial.c_str(), file_name.c_str()) != 0) {
+        std::remove(partial.c_str());
+        throw PsiException(std::string("cannot write file `") + file_name + "'");
+    }
 }
 
 void Dictionary::save(std::ofstream &out) {
-- 
2.43.0


From 9d1d87b87502d54083d438b231484f29b16410d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:43 +0000
Subject: [PATCH 17/38] fix: tokenizer rules that can not be read to the end
 are an error, not an endless loop

---
 .../tokenizers/tp/tp_basic_tokenizer_rule_set.cpp  | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/tools/tokenizers/tp/tp_basic_tokenizer_rule_set.cpp b/tools/tokenizers/tp/tp_basic_tokenizer_rule_set.cpp
index 683af33..4ad11cd 100644
--- a/tools/tokenizers/tp/tp_basic_tokenizer_rule_set.cpp
+++ b/tools/tokenizers/tp/tp_basic_tokenizer_rule_set.cpp
@@ -617,7 +617,7 @@ void TPBasicTokenizerRuleSet::subLoad(
                             fileName +":"+itoa(beginPos)+"\nw: "+ context + subst;
                         std::string resBuffer;
 
-                        while (!st.eof()) {
+                        while (st.good()) {
                             loadWholeElement(st, resBuffer);
                             removeComments(resBuffer);
 
@@ -660,6 +660,10 @@ void TPBasicTokenizerRuleSet::subLoad(
                                 tempContext += "(after definition substitution)";
                             }
                         }
+
+                        if (st.bad())
+                            throw TPTokenizerException(
+                                std::string("rule cannot be read: ") + fileName);
                     }
                 }
 
@@ -761,7 +765,7 @@ void TPBasicTokenizerRuleSet::load(
                             std::string tempContext = context + ":"+itoa(beginPos) + subst;
                             std::string resBuffer;
 
-                            while (!st.eof()) {
+                            while (st.good()) {
                                 loadWholeElement(st, resBuffer);
                                 removeComments(resBuffer);
 
@@ -795,7 +799,11 @@ void TPBasicTokenizerRuleSet::load(
                                               beginPos,
                                               ifstack);
                                 }
-                            };
+                            }
+
+                            if (st.bad())
+                                throw TPTokenizerException(
+                                    std::string("rule cannot be read: ") + fileName);
                         }
                     }
 
-- 
2.43.0


From 7ccf80046bd3f521acd03ae06ceaf5c2418d9fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:48 +0000
Subject: [PATCH 18/38] fix: writing edges at loose vertices as brackets
 aborted the program

---
 .../bracketing-writer/bracketing_lattice_writer.hpp       | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/formats/bracketing/bracketing-writer/bracketing_lattice_writer.hpp b/formats/bracketing/bracketing-writer/bracketing_lattice_writer.hpp
index 7c4eb3b..96b66c0 100644
--- a/formats/bracketing/bracketing-writer/bracketing_lattice_writer.hpp
+++ b/formats/bracketing/bracketing-writer/bracketing_lattice_writer.hpp
@@ -181,6 +181,10 @@ void BracketingLatticeWriter::Worker::doRun_() {
         }
 
         BOOST_FOREACH(EdgeData ed, collectedEdges) {
+            // edges at loose vertices have no place in the text
+            if (!ed.begin || !ed.end) {
+                continue;
+            }
             BracketPrinter::insertElementIntoContainer(edgeStore[*ed.begin][*ed.end], ed);
         }
 
@@ -194,6 +198,10 @@ void BracketingLatticeWriter::Worker::doRun_() {
                 continue;
             }
             EdgeData edgeData = getEdgeData_(edge);
+            // edges at loose vertices have no place in the text
+            if (!edgeData.begin || !edgeData.end) {
+                continue;
+            }
             BracketPrinter::insertElementIntoContainer(
                 edgeStore[*edgeData.begin][*edgeData.end],
                 edgeData);
-- 
2.43.0


From 26675dccec09348db82f2be53bff7b3e7fe0a7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:14 +0000
Subject: [PATCH 19/38] fix: malformed PSI documents (reversed spans, loose
 symbol edges) wrote outside of the lattice

---
 common/lattice.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/common/lattice.cpp b/common/lattice.cpp
index 51f6e03..37514e8 100644
--- a/common/lattice.cpp
+++ b/common/lattice.cpp
@@ -49,6 +49,9 @@ void Lattice::addSymbols(VertexDescriptor startVertex, VertexDescriptor endVerte
     if (isLooseVertex(startVertex) || isLooseVertex(endVertex)) {
         throw WrongVertexException("Cannot add default symbol edges between loose vertices.");
     }
+    if (startVertex > endVertex) {
+        throw ReversedEdgeException("Cannot add default symbol edges backwards.");
+    }
     std::string::iterator iter = allText_.begin() + startVertex;
     std::string::iterator end = allText_.begin() + endVertex;
     VertexDescriptor vd = startVertex;
@@ -237,9 +240,14 @@ Lattice::EdgeDescriptor Lattice::addEdge(
         if (tags == getSymbolTag()) {
             try {
                 firstOutEdge(from, symbolMask_);
-                visibleImplicitOutEdges_[from] = true;
+                if (!isLooseVertex(from)) {
+                    visibleImplicitOutEdges_[from] = true;
+                }
                 EdgeDescriptor ed = firstInEdge(to, symbolMask_);
-                visibleImplicitOutEdges_[getEdgeSource(ed)] = true;
+                VertexDescriptor source = getEdgeSource(ed);
+                if (!isLooseVertex(source)) {
+                    visibleImplicitOutEdges_[source] = true;
+                }
             } catch (NoEdgeException) {
             }
         }
-- 
2.43.0


From 2e410d0f6fb10397ef969e308f7c2c185ab6ec30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:46 +0000
Subject: [PATCH 20/38] fix: empty or unreadable plain text lexicons crashed or
 hung instead of being reported

---
 tools/datastructures/lexica/lexicon_base.cpp | 8 ++++++--
 tools/lemmatizers/lamerlemma/dictionary.cpp  | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/tools/datastructures/lexica/lexicon_base.cpp b/tools/datastructures/lexica/lexicon_base.cpp
index f582de3..39e6cd4 100644
--- a/tools/datastructures/lexica/lexicon_base.cpp
+++ b/tools/datastructures/lexica/lexicon_base.cpp
@@ -65,8 +65,12 @@ void LexiconBase::readPlainText(const boost::filesystem::path& plainTextLexicon)
 
     checkFileRead(plainTextStream, plainTextLexicon.string());
 
-    if (!firstEntry)
-        storeBuilder.add(prevKey, stringSoFar);
+    if (firstEntry)
+        throw Exception(
+            std::string("no entries in plain text lexicon `")
+            + plainTextLexicon.string() + "'");
+
+    storeBuilder.add(prevKey, stringSoFar);
 
     store_.reset(storeBuilder.build());
 }
diff --git a/tools/lemmatizers/lamerlemma/dictionary.cpp b/tools/lemmatizers/lamerlemma/dictionary.cpp
index f986906..77e57b0 100644
--- a/tools/lemmatizers/lamerlemma/dictionary.cpp
+++ b/tools/lemmatizers/lamerlemma/dictionary.cpp
@@ -15,9 +15,13 @@ void Dictionary::readDictionary(const std::string& filename)
     INFO("Reading text dictionary data");
     std::ifstream in;
     in.open(filename.c_str());
-    fsa::FSAMultiStore::Builder builder;
-    builder.createFromSeparatedLines(LineIterator(in), LineIterator());
+    LineIterator it(in), end;
+    std::vector<std::string> lines(it, end);
     checkFileRead(in, filename);
+    if (lines.empty())
+        throw PsiException(std::string("no entries in dictionary file `") + filename + "'");
+    fsa::FSAMultiStore::Builder builder;
+    builder.createFromSeparatedLines(lines.begin(), lines.end());
     store_.reset(builder.build());
     in.close();
     INFO("Done");
-- 
2.43.0


From 2839981c662209162009682ce4faee7df27a94f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:49 +0000
Subject: [PATCH 21/38] fix: file to file runs closed nothing after an
 exception and hid errors on close

---
 framework/pipe_runner.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/framework/pipe_runner.cpp b/framework/pipe_runner.cpp
index ccccf92..8549f65 100644
--- a/framework/pipe_runner.cpp
+++ b/framework/pipe_runner.cpp
@@ -705,9 +705,18 @@ int PipeRunner::run(const std::string& inputFilePath, const std::string& outputF
         return 1;
     }
 
-    resultStatus = run(*inputStream, *outputStream);
+    try {
+        resultStatus = run(*inputStream, *outputStream);
+    } catch (...) {
+        closeStreamWithStandardInputOrOutputCheck(inputStream, inputFilePath);
+        closeStreamWithStandardInputOrOutputCheck(outputStream, outputFilePath);
+        throw;
+    }
 
     outputStream->flush();
+    if (std::ofstream * outputFile = dynamic_cast<std::ofstream *>(outputStream)) {
+        outputFile->close();
+    }
     if (inputStream->bad() || !(*outputStream)) {
         ERROR("Processing " << inputFilePath << " into " << outputFilePath
             << " failed due to an input/output error");
@@ -729,6 +738,7 @@ std::istream * PipeRunner::createInputStreamOrReturnStandardInput(const std::str
         if (fileStream->is_open()) {
             return fileStream;
         } else {
+            delete fileStream;
             return NULL;
         }
     }
@@ -743,6 +753,7 @@ std::ostream * PipeRunner::createOutputStreamOrReturnStandardOutput(const std::s
         if (fileStream->is_open()) {
             return fileStream;
         } else {
+            delete fileStream;
             return NULL;
         }
     }
-- 
2.43.0


From 3338c9775954ab0bd77e3e6a259a7bb773e5256b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:49 +0000
Subject: [PATCH 22/38] fix: the guessing reader and encoding conversion hid
 errors while reading the input

---
 common/stream_helpers.cpp | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/common/stream_helpers.cpp b/common/stream_helpers.cpp
index 5413230..bf9efdf 100644
--- a/common/stream_helpers.cpp
+++ b/common/stream_helpers.cpp
@@ -2,15 +2,19 @@
 
 #include "psi_exception.hpp"
 
-#include <sstream>
+#include <fstream>
+
+static void clearEndOfFile(std::istream& stream) {
+    stream.clear(stream.rdstate() & std::ios::badbit);
+}
 
 std::string getStartingDataWithoutTouchingStream(std::istream& stream, int size) {
     char buffer[size];
     stream.read(buffer, size);
 
     // it is necessary to remove eofbit flag in the case of when the blockSize_
-    // is greather than the total length of input
-    stream.clear();
+    // is greather than the total length of input (but not to hide a read error)
+    clearEndOfFile(stream);
 
     int lastReadable = (int)stream.gcount();
 
@@ -22,12 +26,17 @@ std::string getStartingDataWithoutTouchingStream(std::istream& stream, int size)
 }
 
 std::string getDataFromIStream(std::istream& stream) {
-    std::stringstream data;
-    data << stream.rdbuf();
+    std::string data;
+    char buffer[4096];
 
-    stream.clear();
+    do {
+        stream.read(buffer, sizeof(buffer));
+        data.append(buffer, stream.gcount());
+    } while (stream);
 
-    return data.str();
+    clearEndOfFile(stream);
+
+    return data;
 }
 
 void setDataToIStream(std::istream& stream, std::string data) {
-- 
2.43.0


From 21b022edcaa03dc83f07a52cc03da06ceb1e459a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:49 +0000
Subject: [PATCH 23/38] fix: data files that can not be opened are an error,
 not empty data

---
 common/stream_helpers.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/common/stream_helpers.cpp b/common/stream_helpers.cpp
index bf9efdf..937dbc8 100644
--- a/common/stream_helpers.cpp
+++ b/common/stream_helpers.cpp
@@ -56,6 +56,7 @@ std::string getDataWithoutTouchingIStream(std::istream& stream) {
 }
 
 void checkFileRead(const std::istream& stream, const std::string& fileName) {
-    if (stream.bad())
+    const std::ifstream * file = dynamic_cast<const std::ifstream *>(&stream);
+    if (stream.bad() || (file && !file->is_open()))
         throw PsiException(std::string("cannot read file `") + fileName + "'");
 }
-- 
2.43.0


From 437c92717cde8915accd34c5d61be7b232d60ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:55 +0000
Subject: [PATCH 24/38] fix: corrupt sizes and offsets in zip archives aborted
 the program

---
 fex/fex/Zip_Extractor.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/fex/fex/Zip_Extractor.cpp b/fex/fex/Zip_Extractor.cpp
index 0b8bef4..baf7aaa 100644
--- a/fex/fex/Zip_Extractor.cpp
+++ b/fex/fex/Zip_Extractor.cpp
@@ -163,7 +163,7 @@ blargg_err_t Zip_Extractor::open_v()
     // Find file offset of beginning of catalog
     catalog_begin = get_le32( end_entry.dir_offset );
     int catalog_size = end_pos - catalog_begin;
-    if ( catalog_size < 0 )
+    if ( catalog_begin < 0 || catalog_size < 0 )
         return blargg_err_file_corrupt;
     catalog_size += end_entry_size;
 
@@ -242,6 +242,9 @@ blargg_err_t Zip_Extractor::update_info( bool advance_first )
         if ( (unsigned) next_offset > catalog.size() - end_entry_size )
             return blargg_err_file_corrupt;
 
+        if ( (int) get_le32( e.size ) < 0 )
+            return blargg_err_file_corrupt;
+
         if ( catalog [next_offset] == 'P' )
             reorder_entry_header( next_offset );
 
@@ -328,6 +331,9 @@ blargg_err_t Zip_Extractor::first_read( int count )
     int raw_size = get_le32( e.raw_size );
 
     int file_offset = get_le32( e.file_offset );
+    if ( file_offset < 0 || file_offset > catalog_begin ||
+            raw_size < 0 || raw_size > catalog_begin - file_offset )
+        return blargg_err_file_corrupt;
     int align = file_offset % disk_block_size;
     {
         // read header
@@ -368,7 +374,7 @@ blargg_err_t Zip_Extractor::first_read( int count )
         RETURN_ERR( fill_buf( data_offset - buf_offset, read_buf_size, disk_block_size ) );
     }
 
-    raw_remain = raw_size - (buf.filled() - buf_offset);
+    raw_remain = max( 0, raw_size - (buf.filled() - buf_offset) );
     return buf.set_mode( (file_deflated ? buf.mode_raw_deflate : buf.mode_copy), buf_offset );
 }
 
-- 
2.43.0


From 286114000c25d98af329cb996d7d804fd21c68b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:55 +0000
Subject: [PATCH 25/38] fix: archives stored incompletely in the temporary
 directory were used for ever after

---
 common/file_extractor.cpp | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/common/file_extractor.cpp b/common/file_extractor.cpp
index 512a6e8..4448c73 100644
--- a/common/file_extractor.cpp
+++ b/common/file_extractor.cpp
@@ -1,4 +1,5 @@
 #include <boost/filesystem.hpp>
+#include <boost/shared_ptr.hpp>
 #include <cstdio>
 #include <fstream>
 #include <cstring>
@@ -23,6 +24,7 @@ std::set<std::string> FileExtractor::getFileListByPath(const std::string &archiv
 
     fex_t* fex;
     handleError_( fex_open(&fex, archivePath.c_str()) );
+    boost::shared_ptr<fex_t> fexCloser(fex, fex_close);
 
     while (!fex_done(fex)) {
         std::string foundFile = fex_name(fex);
@@ -33,9 +35,6 @@ std::set<std::string> FileExtractor::getFileListByPath(const std::string &archiv
         handleError_( fex_next(fex) );
     }
 
-    fex_close(fex);
-    fex = NULL;
-
     return files;
 }
 
@@ -51,6 +50,7 @@ std::map<std::string, std::string> FileExtractor::extractFilesByPath(
 
     fex_t* fex;
     handleError_( fex_open(&fex, archivePath.c_str()) );
+    boost::shared_ptr<fex_t> fexCloser(fex, fex_close);
 
     while (!fex_done(fex)) {
         if (regexp.empty() || RegExp::FullMatch(fex_name(fex), PerlRegExp(regexp))) {
@@ -64,9 +64,6 @@ std::map<std::string, std::string> FileExtractor::extractFilesByPath(
         handleError_( fex_next(fex) );
     }
 
-    fex_close(fex);
-    fex = NULL;
-
     return files;
 }
 
@@ -93,17 +90,29 @@ std::string FileExtractor::storeToTempFile_(const std::string &archive) {
         return fileName;
     }
 
-    std::ofstream tempFile(fileName.c_str(), std::ios::out | std::ios::binary);
+    // the file gets its name when it is complete, so that an interrupted or
+    // failed write never leaves a damaged archive for the next time
+    boost::filesystem::path partName
+        = boost::filesystem::unique_path(fileName + "-%%%%-%%%%-%%%%-%%%%.part");
+
+    std::ofstream tempFile(partName.string().c_str(), std::ios::out | std::ios::binary);
+
+    INFO("creating temporary file " << fileName);
+    tempFile.write(archive.c_str(), archive.size());
+    tempFile.close();
+
+    boost::system::error_code error;
 
     if (tempFile) {
-        INFO("creating temporary file " << fileName);
-        tempFile.write(archive.c_str(), archive.size());
+        boost::filesystem::rename(partName, fileName, error);
     }
-    else {
-        ERROR("temporary file can not be created!");
+
+    if (!tempFile || error) {
+        boost::system::error_code ignored;
+        boost::filesystem::remove(partName, ignored);
+        throw Exception("temporary file `" + fileName + "' can not be created");
     }
 
-    tempFile.close();
     return fileName;
 }
 
-- 
2.43.0


From db0cea4a198ba6a3b6578dfdfe88f56f799b22c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:56 +0000
Subject: [PATCH 26/38] fix: gv-writer printed nothing: the arguments given to
 GraphViz were dangling pointers

The adapter let GraphViz keep pointers into strings which were gone by the time
the graph was drawn, so that every format was unknown. Besides, each lattice
written leaked the descriptor of its temporary file, and errors were swallowed.
The graph is now drawn into memory, and a failure is an exception.
---
 formats/gv/gv_lattice_writer.cpp              | 33 ++-------------
 formats/gv/plugin/graphviz_adapter_impl.cpp   | 40 +++++++++++--------
 formats/gv/plugin/graphviz_adapter_impl.hpp   |  3 +-
 .../gv/plugin/graphviz_adapter_interface.hpp  |  7 +++-
 4 files changed, 32 insertions(+), 51 deletions(-)

diff --git a/formats/gv/gv_lattice_writer.cpp b/formats/gv/gv_lattice_writer.cpp
index 9f2ef4c..a6bf747 100644
--- a/formats/gv/gv_lattice_writer.cpp
+++ b/formats/gv/gv_lattice_writer.cpp
@@ -1,9 +1,5 @@
 #include "gv_lattice_writer.hpp"
 
-#include <climits>
-#include <cstdio>
-#include <cstdlib>
-#include <fstream>
 #include <iomanip>
 #include <iostream>
 #include <locale>
@@ -193,17 +189,7 @@ void GVLatticeWriter::Worker::doRun() {
                 "wbmp(:cairo,:gd) xdot");
         }
 
-        static char tmpFileNameTemplate[] = "gv_XXXXXX";
-        char tmpFileName[PATH_MAX];
-        strcpy(tmpFileName, tmpFileNameTemplate);
-        mkstemp(tmpFileName);
-
-        std::string arg0("dot");
-        std::string arg1("-T" + processor_.getOutputFormat());
-        std::string arg2("-o");
-        arg2 += tmpFileName;
-
-        processor_.getAdapter()->init(arg0, arg1, arg2);
+        processor_.getAdapter()->init();
 
         PsiQuoter quoter;
 
@@ -243,7 +229,7 @@ void GVLatticeWriter::Worker::doRun() {
             printEdge(edge, quoter, ordinal, edgeOrdinalMap, vertexNodes, startVertices);
         }
 
-        if (processor_.isAlign() && !processor_.isTree()) {
+        if (processor_.isAlign() && !processor_.isTree() && !vertexNodes.empty()) {
             std::map<int, int>::iterator vni = vertexNodes.begin();
             int prevKey = vni->first;
             int prevVal = vni->second;
@@ -260,20 +246,7 @@ void GVLatticeWriter::Worker::doRun() {
             }
         }
 
-        processor_.getAdapter()->finalize();
-
-        try {
-            std::string line;
-            std::string contents;
-            std::ifstream s(tmpFileName);
-            while (getline(s, line)) {
-                contents += line;
-                contents += "\n";
-            }
-            print_(contents);
-        } catch (...) { }
-
-        unlink(tmpFileName);
+        print_(processor_.getAdapter()->render(processor_.getOutputFormat()));
 
     }
 
diff --git a/formats/gv/plugin/graphviz_adapter_impl.cpp b/formats/gv/plugin/graphviz_adapter_impl.cpp
index 8fbfb60..40bf004 100644
--- a/formats/gv/plugin/graphviz_adapter_impl.cpp
+++ b/formats/gv/plugin/graphviz_adapter_impl.cpp
@@ -3,6 +3,8 @@
 
 #include <cassert>
 
+#include "psi_exception.hpp"
+
 
 GraphvizAdapterImpl::GraphvizAdapterImpl() :
     gvc_(NULL),
@@ -19,30 +21,34 @@ GraphvizAdapterImpl::~GraphvizAdapterImpl() {
 
 
 void GraphvizAdapterImpl::init() {
+    finalize_graph_();
+    finalize_context_();
+    nodes_.clear();
+    edges_.clear();
     init_context_();
     init_graph_();
 }
 
 
-void GraphvizAdapterImpl::init(std::string arg0, std::string arg1, std::string arg2) {
-    init();
-    const char * const args[] = {
-        arg0.c_str(),
-        arg1.c_str(),
-        arg2.c_str(),
-        "unused argument to avoid stack smashing"
-    };
-    gvParseArgs(gvc_, 3, (char**)args);
-    assert(gvc_);
-}
-
-
-void GraphvizAdapterImpl::finalize() {
-    gvLayoutJobs(gvc_, g_);
-    gvRenderJobs(gvc_, g_);
-    gvFreeLayout(gvc_, g_);
+std::string GraphvizAdapterImpl::render(std::string format) {
+    std::string result;
+    bool rendered = false;
+    if (gvLayout(gvc_, g_, "dot") == 0) {
+        char * data = NULL;
+        unsigned int length = 0;
+        rendered = gvRenderData(gvc_, g_, format.c_str(), &data, &length) == 0 && data;
+        if (rendered) {
+            result.assign(data, length);
+        }
+        gvFreeRenderData(data);
+        gvFreeLayout(gvc_, g_);
+    }
     finalize_graph_();
     finalize_context_();
+    if (!rendered) {
+        throw PsiException("GraphViz is unable to draw the graph in format: " + format);
+    }
+    return result;
 }
 
 
diff --git a/formats/gv/plugin/graphviz_adapter_impl.hpp b/formats/gv/plugin/graphviz_adapter_impl.hpp
index 55a480e..f367b05 100644
--- a/formats/gv/plugin/graphviz_adapter_impl.hpp
+++ b/formats/gv/plugin/graphviz_adapter_impl.hpp
@@ -39,9 +39,8 @@ public:
     virtual ~GraphvizAdapterImpl();
 
     virtual void init();
-    virtual void init(std::string arg0, std::string arg1, std::string arg2);
 
-    virtual void finalize();
+    virtual std::string render(std::string format);
 
     virtual void setRankDir(std::string dir);
     virtual void setOrdering(std::string ordering);
diff --git a/formats/gv/plugin/graphviz_adapter_interface.hpp b/formats/gv/plugin/graphviz_adapter_interface.hpp
index 8c30807..f78d9b7 100644
--- a/formats/gv/plugin/graphviz_adapter_interface.hpp
+++ b/formats/gv/plugin/graphviz_adapter_interface.hpp
@@ -13,9 +13,12 @@ public:
     virtual ~GraphvizAdapterInterface() { }
 
     virtual void init() = 0;
-    virtual void init(std::string arg0, std::string arg1, std::string arg2) = 0;
 
-    virtual void finalize() = 0;
+    /**
+     * Draws the graph in given format. The adapter has to be initialized again
+     * afterwards.
+     */
+    virtual std::string render(std::string format) = 0;
 
     virtual void setRankDir(std::string dir) = 0;
     virtual void setOrdering(std::string ordering) = 0;
-- 
2.43.0


From 709c1059413fdd84e3f8aaba25879d9bbbb99765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:10 +0000
Subject: [PATCH 27/38] fix: iayko kept archives open and exited the program on
 damaged ones

---
 .../iayko/plugin/openfst_adapter_impl.cpp     | 24 +++++++++++--------
 .../iayko/plugin/openfst_adapter_impl.hpp     |  2 --
 2 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/tools/normalizers/iayko/plugin/openfst_adapter_impl.cpp b/tools/normalizers/iayko/plugin/openfst_adapter_impl.cpp
index c33d485..301e4ae 100644
--- a/tools/normalizers/iayko/plugin/openfst_adapter_impl.cpp
+++ b/tools/normalizers/iayko/plugin/openfst_adapter_impl.cpp
@@ -2,21 +2,25 @@
 
 #include <sstream>
 
+#include <boost/scoped_ptr.hpp>
+
 #include "exceptions.hpp"
 #include "fst_path_finder.hpp"
 
 
-const size_t OpenFSTAdapterImpl::MAX_LINE_LENGTH = 99999;
-
-
 OpenFSTAdapterImpl::OpenFSTAdapterImpl() :
     filter_(NULL)
 {
+    // otherwise OpenFST exits the whole program on errors
+    FLAGS_fst_error_fatal = false;
 }
 
 
 OpenFSTAdapterImpl::~OpenFSTAdapterImpl()
 {
+    for (size_t i = 0; i < automata_.size(); ++i) {
+        delete automata_[i];
+    }
 }
 
 
@@ -117,14 +121,15 @@ const fst::Fst<fst::StdArc>* OpenFSTAdapterImpl::loadFstFromFar_(
             const std::string& far,
             const std::string& fst)
 {
-    fst::FarReader<fst::StdArc>* r = fst::FarReader<fst::StdArc>::Open(far);
-    if (!r || r->Error() || !(r->Find(fst))) {
+    boost::scoped_ptr< fst::FarReader<fst::StdArc> > r(
+            fst::FarReader<fst::StdArc>::Open(far));
+    if (!r || r->Error() || !r->Find(fst) || r->Error() || !r->GetFst()) {
         std::stringstream errorSs;
         errorSs << "Iayko normalizer: failed to load FST \"" << fst << "\""
             << " from FAR \"" << far << "\"";
         throw FileFormatException(errorSs.str());
     }
-    return r->GetFst();
+    return r->GetFst()->Copy();
 }
 
 
@@ -136,13 +141,12 @@ std::string OpenFSTAdapterImpl::fstToString_(fst::StdVectorFst& automaton)
     if (finder.paths.size() == 0) {
         return "";
     }
-    char buffer[MAX_LINE_LENGTH];
+    std::string result;
     size_t len = finder.paths[0].path.size();
     for (size_t i = 0; i < len; ++i) {
-        buffer[i] = (char)(finder.paths[0].path[i]);
+        result += (char)(finder.paths[0].path[i]);
     }
-    buffer[len] = '\0';
-    return buffer;
+    return result;
 }
 
 
diff --git a/tools/normalizers/iayko/plugin/openfst_adapter_impl.hpp b/tools/normalizers/iayko/plugin/openfst_adapter_impl.hpp
index 4af0bac..5f5126a 100644
--- a/tools/normalizers/iayko/plugin/openfst_adapter_impl.hpp
+++ b/tools/normalizers/iayko/plugin/openfst_adapter_impl.hpp
@@ -24,8 +24,6 @@ public:
             const std::string& input);
 
 private:
-    static const size_t MAX_LINE_LENGTH;
-
     std::vector< const fst::Fst<fst::StdArc>* > automata_;
     const fst::Fst<fst::StdArc>* filter_;
 
-- 
2.43.0


From 30798363407c9b5976eb2abbb72c0a36fffd312f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:10 +0000
Subject: [PATCH 28/38] fix: iayko and niema took a read error for the end of a
 rule list

---
 tools/normalizers/iayko/iayko.cpp | 4 ++++
 tools/normalizers/niema/niema.cpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/tools/normalizers/iayko/iayko.cpp b/tools/normalizers/iayko/iayko.cpp
index c0851b2..cb80a70 100644
--- a/tools/normalizers/iayko/iayko.cpp
+++ b/tools/normalizers/iayko/iayko.cpp
@@ -12,6 +12,7 @@
 #include "config.hpp"
 #include "lang_specific_processor_file_fetcher.hpp"
 #include "psi_exception.hpp"
+#include "stream_helpers.hpp"
 
 
 const std::string Iayko::Factory::AUXILLIARY_GRM_PATH
@@ -87,6 +88,7 @@ Annotator* Iayko::Factory::doCreateAnnotator(
                 exceptions.push_back(exception);
             }
         }
+        checkFileRead(fin, exceptionsFile);
         fin.close();
     }
 
@@ -198,6 +200,7 @@ Annotator* Iayko::Factory::doCreateAnnotator(
                 fout << "# " << line << std::endl;
             }
         }
+        checkFileRead(fin, md);
         fin.close();
         fout.close();
     }
@@ -222,6 +225,7 @@ Annotator* Iayko::Factory::doCreateAnnotator(
                 transducersSpec.push_back(std::make_pair(far, fstLine));
             }
         }
+        checkFileRead(fin, fsts);
         fin.close();
 
         return new Iayko(lang, transducersSpec, exceptions, inTag);
diff --git a/tools/normalizers/niema/niema.cpp b/tools/normalizers/niema/niema.cpp
index 6486b18..28aec25 100644
--- a/tools/normalizers/niema/niema.cpp
+++ b/tools/normalizers/niema/niema.cpp
@@ -13,6 +13,7 @@
 #include "config.hpp"
 #include "lang_specific_processor_file_fetcher.hpp"
 #include "psi_exception.hpp"
+#include "stream_helpers.hpp"
 
 
 const std::string Niema::Factory::AUXILLIARY_GRM_PATH
@@ -89,6 +90,7 @@ Annotator* Niema::Factory::doCreateAnnotator(
                 exceptions.push_back(exception);
             }
         }
+        checkFileRead(fin, exceptionsFile);
         fin.close();
     }
 
@@ -230,6 +232,7 @@ Annotator* Niema::Factory::doCreateAnnotator(
             command = "";
             comment = "";
         }
+        checkFileRead(fin, md);
         fin.close();
         fout.close();
     }
@@ -259,6 +262,7 @@ Annotator* Niema::Factory::doCreateAnnotator(
                 spec.push_back(std::make_pair(std::make_pair(far, conditionLinePair[0]), conditionLinePair[1]));
             }
         }
+        checkFileRead(fin, conditions);
         fin.close();
 
         if (!saveConditions.empty()) {
-- 
2.43.0


From de5d11a0894f16b0cc80e2b992d12361bd71e841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:53 +0000
Subject: [PATCH 29/38] fix: pdf, djvu and doc readers crashed on or silently
 ignored documents they could not read

---
 formats/djvu/plugin/djvu_adapter_impl.cpp    | 101 ++++++++++++++-----
 formats/doc/doc_lattice_reader.cpp           |  52 +++++++---
 formats/doc/plugin/antiword_adapter_impl.cpp |   6 +-
 formats/pdf/plugin/poppler_adapter_impl.cpp  |  19 +++-
 4 files changed, 133 insertions(+), 45 deletions(-)

diff --git a/formats/djvu/plugin/djvu_adapter_impl.cpp b/formats/djvu/plugin/djvu_adapter_impl.cpp
index be66ac5..d385514 100644
--- a/formats/djvu/plugin/djvu_adapter_impl.cpp
+++ b/formats/djvu/plugin/djvu_adapter_impl.cpp
@@ -2,53 +2,98 @@
 
 #include <limits>
 #include <sstream>
+#include <vector>
+
+#include <boost/shared_ptr.hpp>
 
 #include <libdjvu/ddjvuapi.h>
 #include <libdjvu/miniexp.h>
 
+#include "psi_exception.hpp"
 
-void DjVuAdapterImpl::convertDjVuToText(std::istream & djvuStream, std::iostream & textStream) {
 
-    ddjvu_context_t * context = ddjvu_context_create("djvu-reader");
-    ddjvu_document_t * document = ddjvu_document_create(context, NULL, 0);
+static void releaseContext(ddjvu_context_t * context) {
+    if (context) {
+        ddjvu_context_release(context);
+    }
+}
+
+
+static void releaseDocument(ddjvu_document_t * document) {
+    if (document) {
+        ddjvu_document_release(document);
+    }
+}
+
+
+static void waitForMessages(ddjvu_context_t * context) {
+    ddjvu_message_wait(context);
+    while (ddjvu_message_peek(context)) {
+        ddjvu_message_pop(context);
+    }
+}
+
 
-    ddjvu_message_t * message;
+static void convertDocumentToText(
+    ddjvu_context_t * context,
+    ddjvu_document_t * document,
+    std::istream & djvuStream,
+    std::iostream & textStream
+) {
 
-    message = ddjvu_message_wait(context);
+    ddjvu_message_t * message = ddjvu_message_wait(context);
     if (message->m_any.tag == DDJVU_NEWSTREAM) {
         int streamid = message->m_newstream.streamid;
-        const unsigned short length = (std::numeric_limits<unsigned short>::max)();
-        char * buffer = new char[length];
+        std::vector<char> buffer((std::numeric_limits<unsigned short>::max)());
         while (djvuStream.good()) {
-            djvuStream.read(buffer, length);
-            ddjvu_stream_write(document, streamid, buffer, length);
+            djvuStream.read(&buffer[0], buffer.size());
+            if (djvuStream.gcount() > 0) {
+                ddjvu_stream_write(document, streamid, &buffer[0], djvuStream.gcount());
+            }
         }
         ddjvu_stream_close(document, streamid, 0);
-        delete [] buffer;
     }
     ddjvu_message_pop(context);
 
-    miniexp_t me;
+    while (!ddjvu_document_decoding_done(document)) {
+        waitForMessages(context);
+    }
 
-    message = ddjvu_message_wait(context);
-    if (message->m_any.tag == DDJVU_DOCINFO) {
-        int numPages = ddjvu_document_get_pagenum(document);
-        for (int i = 0; i < numPages; ++i) {
-            while ((me = ddjvu_document_get_pagetext(document, i, "page")) == miniexp_dummy) {
-                ddjvu_message_wait(context);
-                ddjvu_message_pop(context);
-            }
-            char * text;
-            if (me && (text = (char*)(miniexp_to_str(miniexp_nth(5, me))))) {
-                textStream << text << std::endl;
-            }
-            ddjvu_miniexp_release(document, me);
+    if (ddjvu_document_decoding_error(document)) {
+        throw PsiException("the DjVu document cannot be read");
+    }
+
+    int numPages = ddjvu_document_get_pagenum(document);
+    for (int i = 0; i < numPages; ++i) {
+        miniexp_t me;
+        while ((me = ddjvu_document_get_pagetext(document, i, "page")) == miniexp_dummy) {
+            waitForMessages(context);
         }
-    };
-    ddjvu_message_pop(context);
+        if (miniexp_symbolp(me)) {
+            throw PsiException("a page of the DjVu document cannot be read");
+        }
+        const char * text;
+        if (me && (text = miniexp_to_str(miniexp_nth(5, me)))) {
+            textStream << text << std::endl;
+        }
+        ddjvu_miniexp_release(document, me);
+    }
+
+}
+
+
+void DjVuAdapterImpl::convertDjVuToText(std::istream & djvuStream, std::iostream & textStream) {
+
+    boost::shared_ptr<ddjvu_context_t> context(
+        ddjvu_context_create("djvu-reader"), releaseContext);
+    boost::shared_ptr<ddjvu_document_t> document(
+        context ? ddjvu_document_create(context.get(), NULL, 0) : NULL, releaseDocument);
+
+    if (!document) {
+        throw PsiException("DjVuLibre cannot be initialized");
+    }
 
-    ddjvu_document_release(document);
-    ddjvu_context_release(context);
+    convertDocumentToText(context.get(), document.get(), djvuStream, textStream);
 
 }
 
diff --git a/formats/doc/doc_lattice_reader.cpp b/formats/doc/doc_lattice_reader.cpp
index 7c6399b..0ce448d 100644
--- a/formats/doc/doc_lattice_reader.cpp
+++ b/formats/doc/doc_lattice_reader.cpp
@@ -2,12 +2,15 @@
 
 #include <cstdio>
 #include <cstdlib>
+#include <fstream>
 
 #include <boost/assign/list_of.hpp>
 
 #include "plugin_manager.hpp"
 
 #include "logging.hpp"
+#include "psi_exception.hpp"
+#include "stream_helpers.hpp"
 
 
 DocLatticeReader::DocLatticeReader() {
@@ -76,6 +79,28 @@ bool DocLatticeReader::Factory::doCheckRequirements(
 }
 
 
+namespace {
+
+struct TemporaryFile {
+    std::string name;
+
+    explicit TemporaryFile(const char * prefix) {
+        char * path = tempnam(NULL, prefix);
+        if (!path) {
+            throw PsiException("cannot create a temporary file");
+        }
+        name = path;
+        free(path);
+    }
+
+    ~TemporaryFile() {
+        std::remove(name.c_str());
+    }
+};
+
+}
+
+
 DocLatticeReader::Worker::Worker(
     DocLatticeReader& processor,
     std::istream& inputStream,
@@ -92,26 +117,27 @@ void DocLatticeReader::Worker::doRun() {
 
     if (processor_.isActive()) {
 
-        char * tmpFileIn = tempnam(NULL, "psii_");
-        char * tmpFileOut = tempnam(NULL, "psio_");
-        std::string tmpFileInName(tmpFileIn);
-        std::string tmpFileOutName(tmpFileOut);
+        TemporaryFile tmpFileIn("psii_");
+        TemporaryFile tmpFileOut("psio_");
 
-        std::ofstream strIn(tmpFileIn);
-        strIn << inputStream_.rdbuf() << std::flush;
-        processor_.getAdapter()->convertWordToText(tmpFileInName, tmpFileOutName);
+        std::ofstream strIn(tmpFileIn.name.c_str());
+        if (inputStream_.peek() != std::istream::traits_type::eof()) {
+            strIn << inputStream_.rdbuf();
+        }
+        strIn.close();
+        if (!strIn) {
+            throw PsiException("cannot write file `" + tmpFileIn.name + "'");
+        }
+
+        processor_.getAdapter()->convertWordToText(tmpFileIn.name, tmpFileOut.name);
 
-        std::ifstream strOut(tmpFileOut);
+        std::ifstream strOut(tmpFileOut.name.c_str());
         std::string line;
         while (std::getline(strOut, line)) {
             appendParagraphToLattice_(line, textTags_);
             lattice_.appendString("\n");
         }
-
-        std::remove(tmpFileIn);
-        std::remove(tmpFileOut);
-        free(tmpFileIn);
-        free(tmpFileOut);
+        checkFileRead(strOut, tmpFileOut.name);
 
     }
 
diff --git a/formats/doc/plugin/antiword_adapter_impl.cpp b/formats/doc/plugin/antiword_adapter_impl.cpp
index 05cd36b..4e7c23c 100644
--- a/formats/doc/plugin/antiword_adapter_impl.cpp
+++ b/formats/doc/plugin/antiword_adapter_impl.cpp
@@ -2,13 +2,17 @@
 
 #include <cstdlib>
 
+#include "psi_exception.hpp"
+
 
 void AntiwordAdapterImpl::convertWordToText(
     std::string sourceFileName,
     std::string targetFileName
 ) {
     std::string command("antiword " + sourceFileName + " 1>" + targetFileName);
-    system(command.c_str());
+    if (system(command.c_str()) != 0) {
+        throw PsiException("antiword cannot convert the document");
+    }
 }
 
 
diff --git a/formats/pdf/plugin/poppler_adapter_impl.cpp b/formats/pdf/plugin/poppler_adapter_impl.cpp
index 6222939..6dfc4a5 100644
--- a/formats/pdf/plugin/poppler_adapter_impl.cpp
+++ b/formats/pdf/plugin/poppler_adapter_impl.cpp
@@ -6,6 +6,8 @@
 #include <gtk/gtk.h>
 #include <poppler.h>
 
+#include "psi_exception.hpp"
+
 
 void PopplerAdapterImpl::convertPDFToText(std::istream & pdfStream, std::iostream & textStream) {
     std::string line;
@@ -20,9 +22,15 @@ void PopplerAdapterImpl::convertPDFToText(std::istream & pdfStream, std::iostrea
         NULL,
         NULL
     );
-    PopplerPage * page;
+    if (!document) {
+        throw PsiException("the PDF document cannot be read");
+    }
     for (int i = 0; i < poppler_document_get_n_pages(document); ++i) {
-        page = poppler_document_get_page(document, i);
+        PopplerPage * page = poppler_document_get_page(document, i);
+        if (!page) {
+            g_object_unref(document);
+            throw PsiException("a page of the PDF document cannot be read");
+        }
 #if POPPLER_CHECK_VERSION(0, 16, 0)
         char * text = poppler_page_get_text(page);
 #else
@@ -36,8 +44,13 @@ void PopplerAdapterImpl::convertPDFToText(std::istream & pdfStream, std::iostrea
         rect.y2 = height;
         char * text = poppler_page_get_text(page, POPPLER_SELECTION_GLYPH, &rect);
 #endif
-        textStream << text << std::endl;
+        g_object_unref(page);
+        if (text) {
+            textStream << text << std::endl;
+            g_free(text);
+        }
     }
+    g_object_unref(document);
 }
 
 
-- 
2.43.0


From 8e2061cafa8248507c597b03d676d4e42dc60bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:12 +0000
Subject: [PATCH 30/38] fix: a pipeline whose node could not be run reported
 success

---
 framework/pipe_runner.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/framework/pipe_runner.cpp b/framework/pipe_runner.cpp
index 8549f65..53d6267 100644
--- a/framework/pipe_runner.cpp
+++ b/framework/pipe_runner.cpp
@@ -481,9 +481,8 @@ void PipeRunner::runPipelineNode_(
     std::stringstream messageStream;
     if (!(*current)->checkRequirements(messageStream)) {
 
-        ERROR("Cannot run node, because requirements are not met:\n"
-             << messageStream.str());
-        return;
+        throw Exception(
+            "Cannot run node, because requirements are not met:\n" + messageStream.str());
     }
 
     boost::shared_ptr<Processor> processor = (*current)->createProcessor();
-- 
2.43.0


From e8918527e4d76c20cf519a7919a68fc138155dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:07 +0000
Subject: [PATCH 31/38] fix: a lack of memory inside a standard stream gave
 truncated output with success

---
 common/CMakeLists.txt          |  1 +
 common/memory_shortage.cpp     | 27 +++++++++++++++++++++++++++
 common/memory_shortage.hpp     | 25 +++++++++++++++++++++++++
 common/plugins/plugin.hpp      |  4 ++++
 framework/psi-pipe.cpp         |  3 +++
 server/psi-server.cpp          |  3 ++-
 server/psi_request_handler.cpp |  5 +++++
 server/site/json_site.cpp      |  2 ++
 server/site/pipe_site.cpp      |  2 ++
 9 files changed, 71 insertions(+), 1 deletion(-)
 create mode 100644 common/memory_shortage.cpp
 create mode 100644 common/memory_shortage.hpp

diff --git a/common/CMakeLists.txt b/common/CMakeLists.txt
index 8243931..91d25fe 100644
--- a/common/CMakeLists.txt
+++ b/common/CMakeLists.txt
@@ -38,6 +38,7 @@ add_library(common SHARED
     limit_checker.cpp
     logging.cpp
     md5.cpp
+    memory_shortage.cpp
     morfologik_tags_parser.cpp
     non_annotator_promise.cpp
     object_cache.cpp
diff --git a/common/memory_shortage.cpp b/common/memory_shortage.cpp
new file mode 100644
index 0000000..2b5c92d
--- /dev/null
+++ b/common/memory_shortage.cpp
@@ -0,0 +1,27 @@
+#include "memory_shortage.hpp"
+
+#include <new>
+#include <stdexcept>
+
+namespace {
+    thread_local bool memoryWasShort = false;
+}
+
+void MemoryShortage::watch() {
+    std::set_new_handler(MemoryShortage::notice_);
+}
+
+void MemoryShortage::forget() {
+    memoryWasShort = false;
+}
+
+void MemoryShortage::check() {
+    if (memoryWasShort) {
+        throw std::runtime_error("not enough memory");
+    }
+}
+
+void MemoryShortage::notice_() {
+    memoryWasShort = true;
+    throw std::bad_alloc();
+}
diff --git a/common/memory_shortage.hpp b/common/memory_shortage.hpp
new file mode 100644
index 0000000..e0cf964
--- /dev/null
+++ b/common/memory_shortage.hpp
@@ -0,0 +1,25 @@
+#ifndef MEMORY_SHORTAGE_HDR
+#define MEMORY_SHORTAGE_HDR
+
+/**
+ * Remembers that an allocation has failed in this thread.
+ *
+ * The exception alone is not enough: a standard stream catches what is thrown below it and
+ * only sets its badbit, so text put into a string stream may just be lost.
+ */
+class MemoryShortage {
+public:
+    /** Makes failing allocations be noticed (to be called once, by the main program). */
+    static void watch();
+
+    /** Forgets what has happened so far. */
+    static void forget();
+
+    /** Throws std::runtime_error if an allocation has failed. */
+    static void check();
+
+private:
+    static void notice_();
+};
+
+#endif
diff --git a/common/plugins/plugin.hpp b/common/plugins/plugin.hpp
index 5137282..eec978f 100644
--- a/common/plugins/plugin.hpp
+++ b/common/plugins/plugin.hpp
@@ -1,6 +1,7 @@
 #ifndef PLUGIN_INTERFACE_HDR
 #define PLUGIN_INTERFACE_HDR
 
+#include <new>
 #include <string>
 #include "abstract_plugin.hpp"
 #include "logging.hpp"
@@ -56,7 +57,10 @@ protected:
 private:
     bool loadLibrary_() {
         DEBUG("Opening " << getLibraryName().c_str());
+        // libraries (e.g. DjVuLibre) may install a handler of their own when loaded
+        std::new_handler handler = std::get_new_handler();
         libraryHandle_ = dlopen(getLibraryName().c_str(), RTLD_NOW);
+        std::set_new_handler(handler);
         if (!libraryHandle_) {
             DEBUG("Could not load library: " << getLibraryName()
                   << " Reason: " << dlerror());
diff --git a/framework/psi-pipe.cpp b/framework/psi-pipe.cpp
index 4f951eb..42b6e06 100644
--- a/framework/psi-pipe.cpp
+++ b/framework/psi-pipe.cpp
@@ -6,10 +6,12 @@
 #include "pipe_runner.hpp"
 
 #include "configurator.hpp"
+#include "memory_shortage.hpp"
 
 void checkIfRunAsInstalled(char* arg0);
 
 int main(int argc, char* argv[]) {
+    MemoryShortage::watch();
     checkIfRunAsInstalled(argv[0]);
 
     int exit_code = 1;
@@ -25,6 +27,7 @@ int main(int argc, char* argv[]) {
         if (std::cin.bad() || std::ferror(stdin)) {
             throw std::runtime_error("reading from the standard input failed");
         }
+        MemoryShortage::check();
     } catch (std::exception& ex) {
         std::cerr << ex.what() << std::endl
                   << "ABORTED!" << std::endl;
diff --git a/server/psi-server.cpp b/server/psi-server.cpp
index 89c9aec..246b8a6 100644
--- a/server/psi-server.cpp
+++ b/server/psi-server.cpp
@@ -2,11 +2,12 @@
 
 #include "server_runner.hpp"
 #include "configurator.hpp"
+#include "memory_shortage.hpp"
 
 void checkIfRunAsInstalled(char* arg0);
 
 int main(int argc, char* argv[]) {
-
+    MemoryShortage::watch();
     checkIfRunAsInstalled(argv[0]);
 
     ServerRunner serverRunner(argc, argv);
diff --git a/server/psi_request_handler.cpp b/server/psi_request_handler.cpp
index 1f77472..dab66e2 100644
--- a/server/psi_request_handler.cpp
+++ b/server/psi_request_handler.cpp
@@ -2,6 +2,7 @@
 #include "session_manager.hpp"
 #include "file_storage.hpp"
 #include "logging.hpp"
+#include "memory_shortage.hpp"
 
 #include <boost/lexical_cast.hpp>
 #include <boost/assign.hpp>
@@ -43,6 +44,8 @@ void PsiRequestHandler::handle_request(
     // requests are read and answered concurrently but processed one at a time
     boost::mutex::scoped_lock lock(mutex_);
 
+    MemoryShortage::forget();
+
     // session management
     SessionManager * sesMng = SessionManager::Instance();
     std::string id = SessionManager::SessionId(req_modified.get_header_value("Cookie"));
@@ -78,6 +81,8 @@ void PsiRequestHandler::handle_request(
         rep.headers.push_back(createCookieHeader(session->getId()));
     }
 
+    MemoryShortage::check();
+
     INFO("Answer headers: ");
     for (unsigned int i = 0; i < rep.headers.size(); i++) {
         INFO("  " << (unsigned long)i << ": " << (std::string)rep.headers[i].name << ": "
diff --git a/server/site/json_site.cpp b/server/site/json_site.cpp
index 2c4c7e7..85681a0 100644
--- a/server/site/json_site.cpp
+++ b/server/site/json_site.cpp
@@ -6,6 +6,7 @@
 
 #include "json_site.hpp"
 #include "pipe_runner.hpp"
+#include "memory_shortage.hpp"
 #include "session_manager.hpp"
 
 const std::string JsonSite::PIPE_KEY_NAME = "pipe";
@@ -60,6 +61,7 @@ char * JsonSite::actionJson() {
 
         INFO("... running via API");
         p.run(iss, oss);
+        MemoryShortage::check();
         INFO("... OK");
 
         if (isJavascriptOutput_(pipe)) {
diff --git a/server/site/pipe_site.cpp b/server/site/pipe_site.cpp
index 9c2ce1e..982fea5 100644
--- a/server/site/pipe_site.cpp
+++ b/server/site/pipe_site.cpp
@@ -1,6 +1,7 @@
 #include "pipe_site.hpp"
 #include "pipe_runner.hpp"
 #include "logging.hpp"
+#include "memory_shortage.hpp"
 #include "session_manager.hpp"
 #include "main_factories_keeper.hpp"
 
@@ -157,6 +158,7 @@ std::string PipeSite::runPipe_(std::string pipe,
 
         INFO("... running");
         p.run(iss, oss);
+        MemoryShortage::check();
         INFO("... OK");
 
         if (withSession) {
-- 
2.43.0


From bb4fd424b9c08abffcea24bd4071b17589745aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:50 +0000
Subject: [PATCH 32/38] fix: tagger models were saved and loaded without
 noticing errors

---
 maxent/modelfile.cpp | 230 ++++++++++++++++++++++++++++++-------------
 1 file changed, 161 insertions(+), 69 deletions(-)

diff --git a/maxent/modelfile.cpp b/maxent/modelfile.cpp
index 62ba582..eec411c 100644
--- a/maxent/modelfile.cpp
+++ b/maxent/modelfile.cpp
@@ -31,6 +31,9 @@
 #endif
 
 #include <cassert>
+#include <cstdio>
+#include <cstring>
+#include <stdexcept>
 #include "modelfile.hpp"
 #include <iostream>
 #include <cmath>
@@ -72,13 +75,99 @@ using namespace boost;
 static char model_header[] = "#txt,randomfield";
 static const int header_len = sizeof(model_header) - 1;
 
+// A binary model file, closed also when something goes wrong. A read or write
+// that could not be completed throws.
+class BinaryModelFile {
+    public:
+        BinaryModelFile(const string& model, const char* mode) :
+            m_f(gzopen(model.c_str(), mode)) {}
+
+        ~BinaryModelFile() {
+            if (m_f != NULL)
+                gzclose(m_f);
+        }
+
+        bool opened() const { return m_f != NULL; }
+
+        void read(void* buf, size_t len) {
+            if (!try_read(buf, len))
+                throw runtime_error("model file damaged or unreadable");
+        }
+
+        bool try_read(void* buf, size_t len) {
+            if (len == 0)
+                return true;
+#ifdef HAVE_LIBZ
+            return gzread(m_f, buf, len) == (int)len;
+#else
+            return gzread(m_f, buf, len) == 1u;
+#endif
+        }
+
+        string read_string() {
+            size_t len;
+            read(&len, sizeof(len));
+
+            string s;
+            char buf[4096];
+            while (len > 0) {
+                size_t chunk = min(len, sizeof(buf));
+                read(buf, chunk);
+                s.append(buf, chunk);
+                len -= chunk;
+            }
+            return s;
+        }
+
+        void write(const void* buf, size_t len) {
+            if (len == 0)
+                return;
+#ifdef HAVE_LIBZ
+            bool written = gzwrite(m_f, (void*)buf, len) == (int)len;
+#else
+            bool written = gzwrite(m_f, (void*)buf, len) == 1u;
+#endif
+            if (!written)
+                throw runtime_error("cannot write model file");
+        }
+
+        void write_header(const char* header) {
+            char buf[sizeof(model_header)] = "";
+            strncpy(buf, header, header_len);
+            write(buf, header_len);
+        }
+
+        void close() {
+            gzFile f = m_f;
+            m_f = NULL;
+            if (gzclose(f) != 0)
+                throw runtime_error("cannot write model file");
+        }
+
+    private:
+        gzFile m_f;
+
+        BinaryModelFile(const BinaryModelFile&);
+        BinaryModelFile& operator=(const BinaryModelFile&);
+};
+
+static void read_line(istream& f, string& line) {
+    if (!getline(f, line))
+        throw runtime_error("model file damaged or unreadable");
+}
+
+static void check_damage(bool sound) {
+    if (!sound)
+        throw runtime_error("model file damaged or unreadable");
+}
+
 void check_modeltype(const string& model, bool& binary, bool& randomfield) {
-    gzFile f = gzopen(model.c_str(), "rb");
-    if (f == NULL)
+    BinaryModelFile f(model, "rb");
+    if (!f.opened())
         throw runtime_error("Unable to open model file to read");
 
-    char buf[100];
-    gzread(f, (void*)buf, header_len);
+    char buf[header_len + 1] = "";
+    f.try_read(buf, header_len);
     buf[header_len] = '\0';
     string s = buf;
 
@@ -87,7 +176,6 @@ void check_modeltype(const string& model, bool& binary, bool& randomfield) {
     } else if (s.find("bin") != s.npos) {
         binary = true;
     } else {
-        gzclose(f);
         throw runtime_error("Unable to detect model file format");
     }
 
@@ -96,10 +184,8 @@ void check_modeltype(const string& model, bool& binary, bool& randomfield) {
     } else if (s.find("maxent") != s.npos) {
         randomfield = false;
     } else {
-        gzclose(f);
         throw runtime_error("Unable to detect model file format");
     }
-    gzclose(f);
 }
 
 MaxentModelFile::MaxentModelFile(): m_n_theta(0) {}
@@ -173,22 +259,22 @@ void MaxentModelFile::load_model_txt(const string& model) {
     m_theta.reset();
 
     // skip header comments
-    getline(f, line);
+    read_line(f, line);
     while (line.empty() || line[0] == '#')
-        getline(f, line);
+        read_line(f, line);
 
     // read context predicates
     count = atoi(line.c_str());
     for (size_t i = 0; i < count; ++i) {
-        getline(f, line);
+        read_line(f, line);
         m_pred_map->add(line);
     }
 
     // read outcomes
-    getline(f, line);
+    read_line(f, line);
     count = atoi(line.c_str());
     for (size_t i = 0; i < count; ++i) {
-        getline(f, line);
+        read_line(f, line);
         m_outcome_map->add(line);
     }
 
@@ -197,49 +283,52 @@ void MaxentModelFile::load_model_txt(const string& model) {
     boost::char_separator<char> sep(" \t");
     tokenizer_t tokens(line, sep);
     count = m_pred_map->size();
-    assert(count > 0);
+    check_damage(count > 0 && m_outcome_map->size() > 0);
     size_t fid = 0;
     std::vector<pair<me::outcome_id_type, size_t> > params;
     for (size_t i = 0; i < count; ++i) {
         params.clear();
-        getline(f, line);
+        read_line(f, line);
         me::outcome_id_type oid;
         tokens.assign(line);
 
         tokenizer_t::iterator it = tokens.begin();
-        ++it; // skip count which is only used in binary format
+        check_damage(it != tokens.end());
+        size_t len = atoi(it->c_str());
+        ++it;
         for (; it != tokens.end();) {
             oid = atoi(it->c_str()); ++it;
+            check_damage(oid < m_outcome_map->size());
             params.push_back(make_pair(oid,fid++));
         }
+        check_damage(params.size() == len);
         m_params->push_back(params);
     }
 
     // load theta
-    getline(f, line);
+    read_line(f, line);
     m_n_theta = atoi(line.c_str());
-    assert(fid == m_n_theta);
+    check_damage(fid == m_n_theta);
     m_theta.reset(new double[m_n_theta]);
 
-    size_t i = 0;
-    while (getline(f, line)) {
-        assert(!line.empty());
+    for (size_t i = 0; i < m_n_theta; ++i) {
+        read_line(f, line);
+        check_damage(!line.empty() && !f.eof());
         // if (line[0] == '#') continue;
-        m_theta[i++] = atof(line.c_str());
+        m_theta[i] = atof(line.c_str());
     }
-    assert(i == m_n_theta);
+    check_damage(!getline(f, line) && !f.bad());
 }
 
 // load model from a binary file using zlib file io
-// TODO: io error detection
 void MaxentModelFile::load_model_bin(const string& model) {
-    gzFile f;
-    f = gzopen(model.c_str(), "rb");
-    if (f == NULL)
+    BinaryModelFile f(model, "rb");
+    if (!f.opened())
         throw runtime_error("Fail to open model file to read");
 
     // skip header
-    gzseek(f, header_len, 0);
+    char header[header_len];
+    f.read(header, header_len);
 
     m_pred_map.reset(new me::PredMapType);
     m_outcome_map.reset(new me::OutcomeMapType);
@@ -248,49 +337,40 @@ void MaxentModelFile::load_model_bin(const string& model) {
 
     size_t count;
     size_t len;
-    char buf[4096]; // TODO: handle unsafe buffer
     // read context predicates
-    gzread(f, (void*)&count, sizeof(count));
-    for (size_t i = 0; i < count; ++i) {
-        gzread(f, (void*)&len, sizeof(len));
-        gzread(f, (void*)&buf, len);
-        m_pred_map->add(string(buf, len));
-    }
+    f.read(&count, sizeof(count));
+    for (size_t i = 0; i < count; ++i)
+        m_pred_map->add(f.read_string());
 
     // read outcomes
-    gzread(f, (void*)&count, sizeof(count));
-    for (size_t i = 0; i < count; ++i) {
-        gzread(f, (void*)&len, sizeof(len));
-        gzread(f, (void*)&buf, len);
-        m_outcome_map->add(string(buf, len));
-    }
+    f.read(&count, sizeof(count));
+    for (size_t i = 0; i < count; ++i)
+        m_outcome_map->add(f.read_string());
 
     // read paramaters
     count = m_pred_map->size();
-    assert(count > 0);
+    check_damage(count > 0 && m_outcome_map->size() > 0);
     size_t fid = 0;
     size_t oid;
     for (size_t i = 0; i < count; ++i) {
         std::vector<pair<me::outcome_id_type, size_t> > params;
 
-        gzread(f, (void*)&len, sizeof(len));
+        f.read(&len, sizeof(len));
         for (size_t j = 0; j < len; ++j) {
-            gzread(f, (void*)&oid, sizeof(oid));
+            f.read(&oid, sizeof(oid));
+            check_damage(oid < m_outcome_map->size());
             params.push_back(make_pair(oid,fid++));
         }
         m_params->push_back(params);
     }
 
     // load theta
-    gzread(f, (void*)&m_n_theta, sizeof(m_n_theta));
-    assert(fid == m_n_theta);
+    f.read(&m_n_theta, sizeof(m_n_theta));
+    check_damage(fid == m_n_theta);
     m_theta.reset(new double[m_n_theta]);
 
-    for (size_t i = 0; i < m_n_theta; ++i) {
-        gzread(f, (void*)&m_theta[i], sizeof(double));
-    }
-
-    gzclose(f);
+    for (size_t i = 0; i < m_n_theta; ++i)
+        f.read(&m_theta[i], sizeof(double));
 }
 
 
@@ -298,10 +378,19 @@ void MaxentModelFile::save(const string& model, bool binary) {
     if (!m_params || !m_pred_map || !m_outcome_map)
         throw runtime_error("can not save empty model");
 
-    if (binary)
-        save_model_bin(model);
-    else
-        save_model_txt(model);
+    // the model appears under its name only when it is complete
+    string partial = model + ".part";
+    try {
+        if (binary)
+            save_model_bin(partial);
+        else
+            save_model_txt(partial);
+        if (std::rename(partial.c_str(), model.c_str()) != 0)
+            throw runtime_error("cannot write model file");
+    } catch (...) {
+        std::remove(partial.c_str());
+        throw;
+    }
 }
 
 void MaxentModelFile::save_model_txt(const string& model) {
@@ -340,54 +429,57 @@ void MaxentModelFile::save_model_txt(const string& model) {
     f << m_n_theta << endl;
     for (size_t i = 0; i < m_n_theta; ++i)
         f << m_theta[i] << endl;
+
+    f.close();
+    if (!f)
+        throw runtime_error("cannot write model file");
 }
 
 void MaxentModelFile::save_model_bin(const string& model) {
     assert(m_params);
 
-    gzFile f;
-	f = gzopen(model.c_str(),"wb");
-	if (f == NULL)
+    BinaryModelFile f(model, "wb");
+    if (!f.opened())
         throw runtime_error("unable to open model file to write");
 
     // todo: write a header section here
-    gzwrite(f, (void*)"#bin,maxent", header_len);
+    f.write_header("#bin,maxent");
 
     size_t uint;
     uint = m_pred_map->size();
-    gzwrite(f, (void*)&uint, sizeof(uint));
+    f.write(&uint, sizeof(uint));
     for (size_t i = 0;i < m_pred_map->size(); ++i) {
         const string& s = (*m_pred_map)[i];
         uint = s.size();
-        gzwrite(f,(void*)&uint, sizeof(uint));
-        gzwrite(f, (void*)s.data(), s.size());
+        f.write(&uint, sizeof(uint));
+        f.write(s.data(), s.size());
     }
 
     uint = m_outcome_map->size();
-    gzwrite(f, (void*)&uint, sizeof(uint));
+    f.write(&uint, sizeof(uint));
     for (size_t i = 0;i < m_outcome_map->size(); ++i) {
         const string& s = (*m_outcome_map)[i];
         uint = s.size();
-        gzwrite(f, (void*)&uint, sizeof(uint));
-        gzwrite(f, (void*)s.data(), s.size());
+        f.write(&uint, sizeof(uint));
+        f.write(s.data(), s.size());
     }
 
     // write parameters
     for (size_t i = 0;i < m_params->size(); ++i) {
         const vector<pair<me::outcome_id_type, size_t> >& param = (*m_params)[i];
         uint = param.size();
-        gzwrite(f, (void*)&uint, sizeof(uint));
+        f.write(&uint, sizeof(uint));
         for (size_t j = 0; j < param.size(); ++j) {
             uint = param[j].first;
-            gzwrite(f, (void*)&uint, sizeof(uint));
+            f.write(&uint, sizeof(uint));
         }
     }
 
     // write theta
-    gzwrite(f, (void*)&m_n_theta, sizeof(m_n_theta));
+    f.write(&m_n_theta, sizeof(m_n_theta));
     for (size_t i = 0; i < m_n_theta; ++i)
-        gzwrite(f, (void*)&m_theta[i], sizeof(double));
-    gzclose(f);
+        f.write(&m_theta[i], sizeof(double));
+    f.close();
 }
 
 //namespace rf {
-- 
2.43.0


From 5b8fff55698c19992e453d634bd196b1dda4dc7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:58 +0000
Subject: [PATCH 33/38] fix: dot-writer --align read beyond the set of nodes of
 an empty text and did not end

---
 formats/dot/dot_lattice_writer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/formats/dot/dot_lattice_writer.cpp b/formats/dot/dot_lattice_writer.cpp
index 851d1e0..f42964e 100644
--- a/formats/dot/dot_lattice_writer.cpp
+++ b/formats/dot/dot_lattice_writer.cpp
@@ -239,7 +239,7 @@ void DotLatticeWriter::Worker::doRun() {
 
     }
 
-    if (processor_.isAlign()) {
+    if (processor_.isAlign() && !vertexNodes.empty()) {
         std::set<int>::iterator vni = vertexNodes.begin();
         int prev = *vni;
         int next;
-- 
2.43.0


From 35bfb476a8b090647cc4e9cf9f7a72649c8a4e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:58 +0000
Subject: [PATCH 34/38] fix: what was left of a rule file gobio refused was
 read as the beginning of the next one

---
 tools/parsers/gobio/translator/grparser.cpp  | 3 +++
 tools/parsers/gobio/translator/lex.grlex.lpp | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/tools/parsers/gobio/translator/grparser.cpp b/tools/parsers/gobio/translator/grparser.cpp
index 9a9f847..9ba1481 100644
--- a/tools/parsers/gobio/translator/grparser.cpp
+++ b/tools/parsers/gobio/translator/grparser.cpp
@@ -11,6 +11,8 @@ int grparserparse();
 
 std::istream* grlex_input_stream;
 
+void grlex_reset();
+
 extern bool first_read;
 extern bool encoded;
 
@@ -27,6 +29,7 @@ GRuleList* GRParser::parse(std::istream& a_input_stream, bool a_encoded)
         setlocale(LC_NUMERIC, "C");
     }
 
+    grlex_reset();
     grlexlineno = 0;
     grparser_all = 0;
 
diff --git a/tools/parsers/gobio/translator/lex.grlex.lpp b/tools/parsers/gobio/translator/lex.grlex.lpp
index 88eb68c..e3b0326 100644
--- a/tools/parsers/gobio/translator/lex.grlex.lpp
+++ b/tools/parsers/gobio/translator/lex.grlex.lpp
@@ -134,3 +134,9 @@ PLLETTER [a-ząćęłńóśźżA-ZĄĆĘŁŃÓŚŻ]
 <<EOF>>                         {BEGIN(INITIAL); yyterminate();}
 .               {BEGIN(INITIAL);return RTOKEN_ERROR;}
 %%
+
+// forgets what a parse broken off by an error left unread
+void grlex_reset() {
+    BEGIN(INITIAL);
+    YY_FLUSH_BUFFER;
+}
-- 
2.43.0


From 8a450c61c91c36212d7557efed2c35d78a20db35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:24 +0000
Subject: [PATCH 35/38] fix: training a tagger on a text without anything to
 learn from aborted the whole program

---
 maxent/maxentmodel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/maxent/maxentmodel.cpp b/maxent/maxentmodel.cpp
index 9d4bb27..7de6db6 100644
--- a/maxent/maxentmodel.cpp
+++ b/maxent/maxentmodel.cpp
@@ -554,7 +554,7 @@ void MaxentModel::save(const string& model, bool binary) const {
  */
 void MaxentModel::train(size_t iter, const std::string& method,
         double sigma2, double tol) {
-    if (!m_es)
+    if (!m_es || m_es->size() == 0)
         throw runtime_error("unable to train an emtpy model");
 
     scoped_ptr<Trainer> t;
-- 
2.43.0


From 634bfeedc34119d20123de9a71fb09d1da745b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:08 +0000
Subject: [PATCH 36/38] fix: help texts and descriptions that can not be read
 were shown as empty

---
 common/processor_factory.cpp |  6 ++----
 common/stream_helpers.cpp    | 15 +++++++++++++++
 common/stream_helpers.hpp    |  5 +++++
 framework/help_formatter.cpp |  6 ++----
 4 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/common/processor_factory.cpp b/common/processor_factory.cpp
index 3a74db8..d07d47d 100644
--- a/common/processor_factory.cpp
+++ b/common/processor_factory.cpp
@@ -1,6 +1,7 @@
 #include "processor_factory.hpp"
 #include "processor_file_fetcher.hpp"
 #include "logging.hpp"
+#include "stream_helpers.hpp"
 
 #include <sstream>
 #include <fstream>
@@ -127,10 +128,7 @@ std::string ProcessorFactory::getDataFile(std::string fileName, bool printWarnin
 }
 
 std::string ProcessorFactory::getFileContent(boost::filesystem::path path) {
-    std::stringstream content;
-    content << std::ifstream( path.string().c_str() ).rdbuf();
-
-    return content.str();
+    return getWholeFile(path.string());
 }
 
 const std::string ProcessorFactory::OPTION_LABEL = "Allowed options";
diff --git a/common/stream_helpers.cpp b/common/stream_helpers.cpp
index 937dbc8..fd52167 100644
--- a/common/stream_helpers.cpp
+++ b/common/stream_helpers.cpp
@@ -60,3 +60,18 @@ void checkFileRead(const std::istream& stream, const std::string& fileName) {
     if (stream.bad() || (file && !file->is_open()))
         throw PsiException(std::string("cannot read file `") + fileName + "'");
 }
+
+std::string getWholeFile(const std::string& fileName) {
+    std::ifstream file(fileName.c_str());
+    std::string content;
+    char block[4096];
+
+    do {
+        file.read(block, sizeof(block));
+        content.append(block, file.gcount());
+    } while (file);
+
+    checkFileRead(file, fileName);
+
+    return content;
+}
diff --git a/common/stream_helpers.hpp b/common/stream_helpers.hpp
index 77fd49b..d86dc2d 100644
--- a/common/stream_helpers.hpp
+++ b/common/stream_helpers.hpp
@@ -17,4 +17,9 @@ std::string getDataWithoutTouchingIStream(std::istream& stream);
  */
 void checkFileRead(const std::istream& stream, const std::string& fileName);
 
+/**
+ * Returns the content of the file, throws an exception if it cannot be opened or read to its end.
+ */
+std::string getWholeFile(const std::string& fileName);
+
 #endif
diff --git a/framework/help_formatter.cpp b/framework/help_formatter.cpp
index 757a958..c399691 100644
--- a/framework/help_formatter.cpp
+++ b/framework/help_formatter.cpp
@@ -8,6 +8,7 @@
 #include "its_data.hpp"
 #include "configurator.hpp"
 #include "shallow_aliaser.hpp"
+#include "stream_helpers.hpp"
 
 void HelpFormatter::formatHelps(std::ostream& output) {
     std::vector<std::string> processors = MainFactoriesKeeper::getInstance().getProcessorNames();
@@ -158,10 +159,7 @@ std::vector<TestBatch> HelpFormatter::getProcessorUsingExamples(std::string proc
 }
 
 std::string HelpFormatter::getFileContent(const boost::filesystem::path& path) {
-    std::stringstream content;
-    content << std::ifstream( path.string().c_str() ).rdbuf();
-
-    return content.str();
+    return getWholeFile(path.string());
 }
 
 std::list<std::string> HelpFormatter::getProcessorNamesForAlias(std::string alias) {
-- 
2.43.0


From 53a5b718ffd7646af2926fcf8321fc83b27a9582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:40 +0000
Subject: [PATCH 37/38] fix: after a lack of memory in one JSON request the
 replies to all later ones were empty

---
 server/site/json_site.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/server/site/json_site.cpp b/server/site/json_site.cpp
index 85681a0..5de541e 100644
--- a/server/site/json_site.cpp
+++ b/server/site/json_site.cpp
@@ -44,6 +44,7 @@ char * JsonSite::jsonOutput() {
 }
 
 char * JsonSite::actionJson() {
+    output_.clear();
     output_.str(std::string());
     output_ << "{ " << std::endl;
 
-- 
2.43.0


From 30b250f8d260ecf565d647de15e9f113deb3dcaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:55 +0000
Subject: [PATCH 38/38] fix: after a lack of memory a thread's messages were no
 longer logged

---
 common/logging.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/common/logging.cpp b/common/logging.cpp
index 8625891..3ccbc27 100644
--- a/common/logging.cpp
+++ b/common/logging.cpp
@@ -78,6 +78,7 @@ std::stringstream & PSILogger::buffer_() {
 
 void PSILogger::flush(log4cpp::Priority::Value priorityLevel) {
     logger_category.log(priorityLevel, buffer_().str());
+    buffer_().clear();
     buffer_().str("");
 }
 
-- 
2.43.0

