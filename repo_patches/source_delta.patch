From e36a764226545540d885f79f70251b887b7f4090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:25 +0000
Subject: [PATCH 01/48] fix: create a database's TOC atomically

A process dying between the creation of the toc file and the write of its initial record left a database which
could not be read: 'Cannot find a TOC_INIT record'. The new TOC is now written aside, synchronised, and linked into
place.
---
 src/fdb5/toc/TocHandler.cc | 101 ++++++++++++++++++++++++++-----------
 src/fdb5/toc/TocHandler.h  |   5 ++
 2 files changed, 77 insertions(+), 29 deletions(-)

diff --git a/src/fdb5/toc/TocHandler.cc b/src/fdb5/toc/TocHandler.cc
index 68f7695..b06e889 100644
--- a/src/fdb5/toc/TocHandler.cc
+++ b/src/fdb5/toc/TocHandler.cc
@@ -1019,6 +1019,12 @@ void TocHandler::writeInitRecord(const Key& key) {
         directory_.mkdir();
     }
 
+    // A new TOC is written aside, and linked into place once it is complete. A TOC without its initial record would
+    // make the database unusable if this process were to die here.
+    if (!isSubToc_ && !tocPath_.exists()) {
+        createToc(key);
+    }
+
     // enforce lustre striping if requested
     if (stripeLustre() && !tocPath_.exists()) {
         fdb5LustreapiFileCreate(tocPath_, stripeIndexLustreSettings());
@@ -1040,46 +1046,83 @@ void TocHandler::writeInitRecord(const Key& key) {
         LOG_DEBUG_LIB(LibFdb5) << "Initializing FDB TOC in " << tocPath_ << std::endl;
 
         if (!isSubToc_) {
+            copySchema();
+        }
 
-            /* Copy schema first */
+        appendInitRecord(key);
+    }
+    else {
+        ASSERT(r->header_.tag_ == TocRecord::TOC_INIT);
+        eckit::MemoryStream s(&r->payload_[0], r->maxPayloadSize);
+        ASSERT(key == Key(s));
+        dbUID_ = r->header_.uid_;
+    }
+}
 
-            LOG_DEBUG_LIB(LibFdb5) << "Copy schema from " << dbConfig_.schemaPath() << " to " << schemaPath_
-                                   << std::endl;
+void TocHandler::createToc(const Key& key) {
 
-            eckit::LocalPathName tmp{eckit::PathName::unique(schemaPath_)};
+    LOG_DEBUG_LIB(LibFdb5) << "Creating FDB TOC " << tocPath_ << std::endl;
 
-            eckit::FileHandle in(dbConfig_.schemaPath());
+    copySchema();
 
-            // Enforce lustre striping if requested
+    eckit::LocalPathName tmp{eckit::PathName::unique(tocPath_)};
 
-            // SDS: Would be nicer to do this, but FileHandle doesn't have a path_ member, let alone an exposed one
-            //      so would need some tinkering to work with LustreFileHandle.
-            // LustreFileHandle<eckit::FileHandle> out(tmp, stripeIndexLustreSettings());
+    if (stripeLustre()) {
+        fdb5LustreapiFileCreate(tmp, stripeIndexLustreSettings());
+    }
 
-            if (stripeLustre()) {
-                fdb5LustreapiFileCreate(tmp, stripeIndexLustreSettings());
-            }
-            eckit::FileHandle out(tmp);
-            in.copyTo(out);
+    ASSERT(fd_ == -1);
 
-            eckit::LocalPathName::rename(tmp, schemaPath_);
-        }
+    int iomode = O_CREAT | O_RDWR;
+    SYSCALL2(fd_ = ::open(tmp.localPath(), iomode, mode_t(0777)), tmp);
+    {
+        TocHandlerCloser closer(*this);
+        appendInitRecord(key);
+    }
 
-        auto r2 = std::make_unique<TocRecord>(
-            serialisationVersion_.used(),
-            TocRecord::TOC_INIT);  // allocate (large) TocRecord on heap not stack (MARS-779)
-        eckit::MemoryStream s(&r2->payload_[0], r2->maxPayloadSize);
-        s << key;
-        s << isSubToc_;
-        append(*r2, s.position());
-        dbUID_ = r2->header_.uid_;
+    // n.b. Unlike rename, link never replaces a TOC another process has created in the meantime.
+    if (::link(tmp.localPath(), tocPath_.localPath()) != 0 && errno != EEXIST) {
+        std::ostringstream oss;
+        oss << "link " << tmp << " " << tocPath_;
+        throw eckit::FailedSystemCall(oss.str(), Here());
     }
-    else {
-        ASSERT(r->header_.tag_ == TocRecord::TOC_INIT);
-        eckit::MemoryStream s(&r->payload_[0], r->maxPayloadSize);
-        ASSERT(key == Key(s));
-        dbUID_ = r->header_.uid_;
+
+    tmp.unlink();
+}
+
+void TocHandler::copySchema() const {
+
+    LOG_DEBUG_LIB(LibFdb5) << "Copy schema from " << dbConfig_.schemaPath() << " to " << schemaPath_ << std::endl;
+
+    eckit::LocalPathName tmp{eckit::PathName::unique(schemaPath_)};
+
+    eckit::FileHandle in(dbConfig_.schemaPath());
+
+    // Enforce lustre striping if requested
+
+    // SDS: Would be nicer to do this, but FileHandle doesn't have a path_ member, let alone an exposed one
+    //      so would need some tinkering to work with LustreFileHandle.
+    // LustreFileHandle<eckit::FileHandle> out(tmp, stripeIndexLustreSettings());
+
+    if (stripeLustre()) {
+        fdb5LustreapiFileCreate(tmp, stripeIndexLustreSettings());
     }
+    eckit::FileHandle out(tmp);
+    in.copyTo(out);
+
+    eckit::LocalPathName::rename(tmp, schemaPath_);
+}
+
+void TocHandler::appendInitRecord(const Key& key) {
+
+    auto r = std::make_unique<TocRecord>(
+        serialisationVersion_.used(),
+        TocRecord::TOC_INIT);  // allocate (large) TocRecord on heap not stack (MARS-779)
+    eckit::MemoryStream s(&r->payload_[0], r->maxPayloadSize);
+    s << key;
+    s << isSubToc_;
+    append(*r, s.position());
+    dbUID_ = r->header_.uid_;
 }
 
 void TocHandler::writeClearRecord(const Index& index) {
diff --git a/src/fdb5/toc/TocHandler.h b/src/fdb5/toc/TocHandler.h
index ebeca73..3f57492 100644
--- a/src/fdb5/toc/TocHandler.h
+++ b/src/fdb5/toc/TocHandler.h
@@ -223,6 +223,11 @@ private:  // methods
 
     void append(TocRecord& r, size_t payloadSize);
 
+    // Creation of a new TOC
+    void createToc(const Key& tocKey);
+    void copySchema() const;
+    void appendInitRecord(const Key& tocKey);
+
     // Check if the Index record should be skipped
     bool ignoreIndex(const TocRecord& r, bool readMasked) const;
 
-- 
2.43.0


From 7f4392b4d9e533372d37ba52161b685adc2311f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:45 +0000
Subject: [PATCH 02/48] fix: report a failure to open a directory while
 scanning for databases

A failing opendir led to readdir on a null pointer.
---
 src/fdb5/toc/TocEngine.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fdb5/toc/TocEngine.cc b/src/fdb5/toc/TocEngine.cc
index a04002b..011de81 100644
--- a/src/fdb5/toc/TocEngine.cc
+++ b/src/fdb5/toc/TocEngine.cc
@@ -45,6 +45,9 @@ namespace fdb5 {
 void TocEngine::scan_dbs(const std::string& path, std::list<std::string>& dbs) const {
 
     eckit::StdDir d(path.c_str());
+    if (d == nullptr) {
+        throw eckit::FailedSystemCall("opendir " + path, Here());
+    }
 
     // Once readdir_r finally gets deprecated and removed, we may need to
     // protecting readdir() as not yet guarranteed thread-safe by POSIX
-- 
2.43.0


From e947955b88c190280a1898a728e60b8ea5485575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:45 +0000
Subject: [PATCH 03/48] fix: CachedFDProxy kept a reference to a temporary path

Reporting a failed read of a TOC used the path after its lifetime.
---
 src/fdb5/toc/TocHandler.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fdb5/toc/TocHandler.cc b/src/fdb5/toc/TocHandler.cc
index b06e889..5e7f88c 100644
--- a/src/fdb5/toc/TocHandler.cc
+++ b/src/fdb5/toc/TocHandler.cc
@@ -78,7 +78,7 @@ public:
 class CachedFDProxy {
 public:  // methods
 
-    CachedFDProxy(const eckit::PathName& path, int fd, std::unique_ptr<eckit::MemoryHandle>& cached) :
+    CachedFDProxy(const eckit::LocalPathName& path, int fd, std::unique_ptr<eckit::MemoryHandle>& cached) :
         path_(path), fd_(fd), cached_(cached.get()) {
         ASSERT((fd != -1) != (!!cached));
     }
@@ -125,7 +125,7 @@ public:  // methods
 
 private:  // members
 
-    const eckit::PathName& path_;
+    const eckit::LocalPathName& path_;
     int fd_;
     MemoryHandle* cached_;
 };
-- 
2.43.0


From a65fab9b2d9727636fd352bf784b7b0f51ac3151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:45 +0000
Subject: [PATCH 04/48] fix: report a failure to synchronise a TOC, and close
 it all the same

TocHandlerCloser's destructor terminated the process when closing the TOC
failed, and close() left the TOC open.
---
 src/fdb5/toc/TocHandler.cc | 39 +++++++++++++++++++++++++++++++-------
 1 file changed, 32 insertions(+), 7 deletions(-)

diff --git a/src/fdb5/toc/TocHandler.cc b/src/fdb5/toc/TocHandler.cc
index 5e7f88c..db06bd7 100644
--- a/src/fdb5/toc/TocHandler.cc
+++ b/src/fdb5/toc/TocHandler.cc
@@ -69,8 +69,24 @@ class TocHandlerCloser {
 
 public:
 
-    TocHandlerCloser(const TocHandler& handler) : handler_(handler) {}
-    ~TocHandlerCloser() { handler_.close(); }
+    TocHandlerCloser(const TocHandler& handler) : handler_(handler), exceptions_(std::uncaught_exceptions()) {}
+
+    // n.b. Closing synchronises what has been written, a failure of which must be reported.
+    ~TocHandlerCloser() noexcept(false) {
+        try {
+            handler_.close();
+        }
+        catch (...) {
+            if (std::uncaught_exceptions() == exceptions_) {
+                throw;
+            }
+            Log::error() << "Failed to close TOC while handling another failure" << std::endl;
+        }
+    }
+
+private:
+
+    const int exceptions_;
 };
 
 //----------------------------------------------------------------------------------------------------------------------
@@ -609,13 +625,22 @@ void TocHandler::close() const {
 
     if (fd_ >= 0) {
         LOG_DEBUG_LIB(LibFdb5) << "Closing TOC " << tocPath_ << std::endl;
-        if (dirty_) {
-            SYSCALL2(eckit::fdatasync(fd_), tocPath_);
-            dirty_ = false;
-        }
-        SYSCALL2(::close(fd_), tocPath_);
+        const int fd = fd_;
+        const bool sync = dirty_;
+
+        // whatever fails, the TOC is closed
         fd_ = -1;
+        dirty_ = false;
         writeMode_ = false;
+
+        if (sync && eckit::fdatasync(fd) < 0) {
+            const int err = errno;
+            ::close(fd);
+            std::ostringstream oss;
+            oss << "fdatasync " << tocPath_;
+            throw FailedSystemCall(oss.str(), Here(), err);
+        }
+        SYSCALL2(::close(fd), tocPath_);
     }
 }
 
-- 
2.43.0


From 650ec6b9143c2ffa311c5387623ab317bb1b1aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:45 +0000
Subject: [PATCH 05/48] fix: destructors flushing a failing FDB neither end the
 process nor publish unstored fields

When flushing a database's store failed, its catalogue writer published the
index entries of the unstored fields on destruction.
---
 src/fdb5/api/FDB.cc                |  7 ++++++-
 src/fdb5/database/Archiver.cc      | 12 +++++++++++-
 src/fdb5/database/Catalogue.h      |  3 +++
 src/fdb5/toc/TocCatalogueWriter.cc | 15 +++++++++++++--
 src/fdb5/toc/TocCatalogueWriter.h  |  4 ++++
 5 files changed, 37 insertions(+), 4 deletions(-)

diff --git a/src/fdb5/api/FDB.cc b/src/fdb5/api/FDB.cc
index d5f914d..c9db2df 100644
--- a/src/fdb5/api/FDB.cc
+++ b/src/fdb5/api/FDB.cc
@@ -77,7 +77,12 @@ FDB::FDB(const Config& config) :
 
 
 FDB::~FDB() {
-    flush();
+    try {
+        flush();
+    }
+    catch (std::exception& e) {
+        eckit::Log::error() << "Error flushing FDB: " << e.what() << std::endl;
+    }
     if (reportStats_ && internal_) {
         stats_.report(eckit::Log::info(), (internal_->name() + " ").c_str());
     }
diff --git a/src/fdb5/database/Archiver.cc b/src/fdb5/database/Archiver.cc
index 47051c8..076abda 100644
--- a/src/fdb5/database/Archiver.cc
+++ b/src/fdb5/database/Archiver.cc
@@ -32,7 +32,17 @@ Archiver::Archiver(const Config& dbConfig, const ArchiveCallback& callback) :
     dbConfig_(dbConfig), db_(nullptr), callback_(callback) {}
 
 Archiver::~Archiver() {
-    flush();  // certify that all sessions are flushed before closing them
+    // certify that all sessions are flushed before closing them
+    std::lock_guard<std::recursive_mutex> lock(flushMutex_);
+    for (auto& [key, db] : databases_) {
+        try {
+            flushDatabase(db);
+        }
+        catch (std::exception& e) {
+            eckit::Log::error() << "Error flushing database " << key << ": " << e.what() << std::endl;
+            db.catalogue_->discardUnflushed();
+        }
+    }
 }
 
 void Archiver::archive(const Key& key, const void* data, size_t len) {
diff --git a/src/fdb5/database/Catalogue.h b/src/fdb5/database/Catalogue.h
index 608e016..1691758 100644
--- a/src/fdb5/database/Catalogue.h
+++ b/src/fdb5/database/Catalogue.h
@@ -211,6 +211,9 @@ public:
     virtual void index(const Key& key, const eckit::URI& uri, eckit::Offset offset, eckit::Length length) = 0;
     virtual void reconsolidate() = 0;
     virtual size_t archivedLocations() const { NOTIMP; }
+
+    /// Nothing archived since the last flush may be made visible: its data could not be stored
+    virtual void discardUnflushed() {}
 };
 
 //----------------------------------------------------------------------------------------------------------------------
diff --git a/src/fdb5/toc/TocCatalogueWriter.cc b/src/fdb5/toc/TocCatalogueWriter.cc
index 5ab59e7..7de0568 100644
--- a/src/fdb5/toc/TocCatalogueWriter.cc
+++ b/src/fdb5/toc/TocCatalogueWriter.cc
@@ -65,8 +65,19 @@ TocCatalogueWriter::TocCatalogueWriter(const eckit::URI& uri, const fdb5::Config
 }
 
 TocCatalogueWriter::~TocCatalogueWriter() {
-    clean();
-    close();
+    try {
+        if (discardUnflushed_ && archivedLocations_ != 0) {
+            Log::error() << *this << " closed with " << archivedLocations_ << " unflushed fields" << std::endl;
+            deselectIndex();
+        }
+        else {
+            clean();
+        }
+        close();
+    }
+    catch (std::exception& e) {
+        Log::error() << "Error closing " << directory_ << ": " << e.what() << std::endl;
+    }
 }
 
 // selectIndex is called during schema traversal and in case of out-of-order fieldLocation archival
diff --git a/src/fdb5/toc/TocCatalogueWriter.h b/src/fdb5/toc/TocCatalogueWriter.h
index 872a619..48ea899 100644
--- a/src/fdb5/toc/TocCatalogueWriter.h
+++ b/src/fdb5/toc/TocCatalogueWriter.h
@@ -71,6 +71,8 @@ public:  // methods
 
     size_t archivedLocations() const override { return archivedLocations_; }
 
+    void discardUnflushed() override { discardUnflushed_ = true; }
+
 protected:  // methods
 
     bool selectIndex(const Key& idxKey) override;
@@ -126,6 +128,8 @@ private:  // members
     eckit::AutoUmask umask_;
     size_t archivedLocations_;
 
+    bool discardUnflushed_{false};
+
     std::mutex mutex_;
 };
 
-- 
2.43.0


From 5e6054ccd0bfd0d8a93499f7592dc85fbe7c30c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:57 +0000
Subject: [PATCH 06/48] fix: de-duplicated reads returned the last listed field
 in place of every other

---
 src/fdb5/api/FDB.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fdb5/api/FDB.cc b/src/fdb5/api/FDB.cc
index c9db2df..f7d49b7 100644
--- a/src/fdb5/api/FDB.cc
+++ b/src/fdb5/api/FDB.cc
@@ -247,7 +247,7 @@ eckit::DataHandle* FDB::read(ListIterator& it, bool sorted) {
             ListElementDeduplicator deduplicator;
             metkit::hypercube::HyperCubePayloaded<ListElement> cube(cubeRequest, deduplicator);
             for (const auto& elem : elements) {
-                cube.add(elem.combinedKey().request(), el);
+                cube.add(elem.combinedKey().request(), elem);
             }
 
             if (cube.countVacant() > 0) {
-- 
2.43.0


From 64ddf33eda96d841fc910be12560fa26bec0adae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:37 +0000
Subject: [PATCH 07/48] fix: reopening a FieldHandle read to its end, and
 mixing seekable and other fields

---
 src/fdb5/io/FieldHandle.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/fdb5/io/FieldHandle.cc b/src/fdb5/io/FieldHandle.cc
index d4a3d23..61bace0 100644
--- a/src/fdb5/io/FieldHandle.cc
+++ b/src/fdb5/io/FieldHandle.cc
@@ -118,6 +118,7 @@ void FieldHandle::openCurrent() {
 
     if (current_ && currentMemoryHandle_) {
         delete current_;
+        current_ = nullptr;
         currentMemoryHandle_ = false;
     }
 
@@ -196,11 +197,12 @@ long FieldHandle::read(void* buffer, long length) {
 void FieldHandle::close() {
     if (currentIdx_ < datahandles_.size()) {
         current_->close();
-        if (currentMemoryHandle_) {
-            delete current_;
-        }
-        current_ = nullptr;
     }
+    if (current_ && currentMemoryHandle_) {
+        delete current_;
+    }
+    current_ = nullptr;
+    currentMemoryHandle_ = false;
     currentIdx_ = datahandles_.size();
 }
 
-- 
2.43.0


From 8331f19c6012a6ad2a84e65b700384f0ed504e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:13 +0000
Subject: [PATCH 08/48] fix: purge fails after a wipe of databases with
 sub-tocs

The indexes of masked sub-tocs refer to index and data files that an earlier
wipe has removed; purging tried to remove them again, and failed.
---
 src/fdb5/toc/TocPurgeVisitor.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/fdb5/toc/TocPurgeVisitor.cc b/src/fdb5/toc/TocPurgeVisitor.cc
index 96464cb..e83d2ed 100644
--- a/src/fdb5/toc/TocPurgeVisitor.cc
+++ b/src/fdb5/toc/TocPurgeVisitor.cc
@@ -37,6 +37,11 @@ bool TocPurgeVisitor::visitDatabase(const Catalogue& catalogue) {
     for (const auto& entry : metadata) {
         const PathName& path = entry.first.path();
 
+        // What is masked may be gone already (e.g. after a wipe)
+        if (!path.exists()) {
+            continue;
+        }
+
         allIndexFiles_.insert(path);
         indexUsage_[path] += 0;
     }
@@ -49,6 +54,9 @@ bool TocPurgeVisitor::visitDatabase(const Catalogue& catalogue) {
             Log::error() << "This may occur when purging an overlayed FDB, which is not supported." << std::endl;
             NOTIMP;
         }
+        if (!uri.path().exists()) {
+            continue;
+        }
         allDataFiles_.insert(uri.path());
         dataUsage_[uri.path()] += 0;
     }
-- 
2.43.0


From 4da0cb7a8f6e94e9aab8f3714bf5f643656764af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:53 +0000
Subject: [PATCH 09/48] fix: a listing at depth 1 reports databases locked for
 listing

---
 src/fdb5/api/local/ListVisitor.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fdb5/api/local/ListVisitor.h b/src/fdb5/api/local/ListVisitor.h
index 7ad949e..8774da2 100644
--- a/src/fdb5/api/local/ListVisitor.h
+++ b/src/fdb5/api/local/ListVisitor.h
@@ -57,6 +57,10 @@ public:
         // If level == 1, avoid constructing the Catalogue/Store objects, so just interrogate the URIs
         if (level_ == 1 && uri.scheme() == "toc") {
             /// @todo only works with the toc backend
+            // If the DB is locked for listing, then it "doesn't exist"
+            if ((uri.path() / "list.lock").exists()) {
+                return false;
+            }
             if (auto dbKey = schema.matchDatabase(uri.path().baseName())) {
                 queue_.emplace(*dbKey, 0);
                 return false;
-- 
2.43.0


From f6aaa5db70311e290ac165ace25e8463046c0d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:53 +0000
Subject: [PATCH 10/48] fix: purge of a database locked for wiping crashes

---
 src/fdb5/api/local/PurgeVisitor.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fdb5/api/local/PurgeVisitor.cc b/src/fdb5/api/local/PurgeVisitor.cc
index 789386c..b4eb868 100644
--- a/src/fdb5/api/local/PurgeVisitor.cc
+++ b/src/fdb5/api/local/PurgeVisitor.cc
@@ -75,6 +75,11 @@ void PurgeVisitor::visitDatum(const Field& field, const std::string& keyFingerpr
 }
 
 void PurgeVisitor::catalogueComplete(const Catalogue& catalogue) {
+    // Skipped, being locked for wiping
+    if (!internalVisitor_) {
+        return;
+    }
+
     internalVisitor_->catalogueComplete(catalogue);
 
     internalVisitor_->gatherAuxiliaryURIs();
-- 
2.43.0


From 15317aae52a91ecf810200fd5e7457225a85c5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:02 +0000
Subject: [PATCH 11/48] fix: an interrupted wipe of a database could not be
 completed by repeating it

---
 src/fdb5/toc/TocCatalogue.cc | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/fdb5/toc/TocCatalogue.cc b/src/fdb5/toc/TocCatalogue.cc
index 154a42a..5097f40 100644
--- a/src/fdb5/toc/TocCatalogue.cc
+++ b/src/fdb5/toc/TocCatalogue.cc
@@ -296,14 +296,31 @@ bool TocCatalogue::doWipeURIs(const CatalogueWipeState& wipeState) const {
 
     bool wipeAll = wipeState.safeURIs().empty();  // nothing else in the directory.
 
-    for (const auto& [type, uris] : wipeState.deleteMap()) {
-
-        for (auto& uri : uris) {
-            if (uri.path().exists()) {
-                remove(uri.path(), eckit::Log::info(), eckit::Log::info(), true);
+    auto removeIf = [&wipeState](auto&& selected) {
+        for (const auto& [type, uris] : wipeState.deleteMap()) {
+            for (auto& uri : uris) {
+                if (selected(uri.path()) && uri.path().exists()) {
+                    remove(uri.path(), eckit::Log::info(), eckit::Log::info(), true);
+                }
             }
         }
-    }
+    };
+
+    // n.b. Files go before what refers to them, as an interrupted wipe is repeated from what the toc and the sub-tocs tell;
+    //      the lock that keeps others from archiving here goes after the toc.
+    const eckit::PathName toc{tocPath().path()};
+    const eckit::PathName schema{schemaPath().path()};
+    const eckit::PathName lock = basePath() / "archive.lock";
+
+    auto isSubToc = [](const eckit::PathName& path) { return path.baseName().asString().substr(0, 4) == "toc."; };
+
+    removeIf([&](const eckit::PathName& path) {
+        return path != toc && path != lock && path != schema && !isSubToc(path);
+    });
+    removeIf(isSubToc);
+    removeIf([&](const eckit::PathName& path) { return path == toc; });
+    removeIf([&](const eckit::PathName& path) { return path == lock; });
+    removeIf([&](const eckit::PathName& path) { return path == schema; });
 
     // Grab the database URI from the first uri in the wipeState
     if (wipeAll && !wipeState.deleteMap().empty()) {
-- 
2.43.0


From a5af4fa80424e4697c9d6ff12dcfa01bd5d6153c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:02 +0000
Subject: [PATCH 12/48] fix: report a failure to restore the control state
 after a wipe

---
 src/fdb5/database/WipeCoordinator.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fdb5/database/WipeCoordinator.cc b/src/fdb5/database/WipeCoordinator.cc
index b679e68..162839c 100644
--- a/src/fdb5/database/WipeCoordinator.cc
+++ b/src/fdb5/database/WipeCoordinator.cc
@@ -46,6 +46,7 @@ WipeElements WipeCoordinator::wipe(CatalogueWipeState& catalogueWipeState, bool
     size_t totalURIsToDelete = catalogueWipeState.countURIsToDelete();
     if (totalURIsToDelete == 0) {
         LOG_DEBUG_LIB(LibFdb5) << "WipeCoordinator::wipe - no URIs to delete" << std::endl;
+        catalogueWipeState.restoreControlState();
         return generateWipeElements(catalogueWipeState, storeWipeStates, {}, unsafeWipeAll);
     }
 
@@ -82,6 +83,9 @@ WipeElements WipeCoordinator::wipe(CatalogueWipeState& catalogueWipeState, bool
         doWipeURIs(catalogueWipeState, storeWipeStates, unknownURIs, unsafeWipeAll);
     }
 
+    // n.b. Unlike when leaving with an exception, a failure to restore the control state is reported.
+    catalogueWipeState.restoreControlState();
+
     LOG_DEBUG_LIB(LibFdb5) << "WipeCoordinator::wipe - completed" << std::endl;
 
     return generateWipeElements(catalogueWipeState, storeWipeStates, unknownURIs, unsafeWipeAll);
-- 
2.43.0


From 9001ee786d3a84d6a0b22361214d682b222f4ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:41 +0000
Subject: [PATCH 13/48] fix: databases named by a dbnames rule were not found
 by partial requests

The names a partial key may stand for were built from an uninitialised
iterator, did not consider rules whose regular expressions reject an empty
value, and looked for the text of the rule's expression within a longer one.
---
 src/fdb5/toc/RootManager.cc | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/fdb5/toc/RootManager.cc b/src/fdb5/toc/RootManager.cc
index 47e3489..f06cf75 100644
--- a/src/fdb5/toc/RootManager.cc
+++ b/src/fdb5/toc/RootManager.cc
@@ -79,7 +79,7 @@ public:
                 return false;
             }
 
-            if (!missing || i->second != missing) {
+            if (!missing || (i->second != missing && !i->second.empty())) {
                 if (!j->second.match(i->second)) {
                     return false;
                 }
@@ -134,7 +134,6 @@ private:  // methods
         size_t len = s.length();
         bool var = false;
         std::string word;
-        std::map<std::string, std::string>::const_iterator j;
 
         for (size_t i = 0; i < len; i++) {
             switch (s[i]) {
@@ -162,11 +161,10 @@ private:  // methods
                         }
                         else {
                             if (iter->second == missing || iter->second.empty()) {
-                                // we know it exists because it is ensured in match()
-                                result += keyregex_.find(word)->second;
+                                result += missing;
                             }
                             else {
-                                result += (*j).second;
+                                result += iter->second;
                             }
                         }
                     }
-- 
2.43.0


From 8ccf438a5d249024316937c15236fa8c87c02818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:41 +0000
Subject: [PATCH 14/48] fix: partial requests missed databases in file spaces
 selected by a regular expression

The expression was matched against a key without the values that the request
leaves out.
---
 src/fdb5/toc/RootManager.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fdb5/toc/RootManager.cc b/src/fdb5/toc/RootManager.cc
index f06cf75..c258d11 100644
--- a/src/fdb5/toc/RootManager.cc
+++ b/src/fdb5/toc/RootManager.cc
@@ -625,9 +625,13 @@ std::vector<PathName> RootManager::visitableRoots(const std::set<Key>& keys) {
 
     eckit::StringSet roots;
 
+    // A key that lacks values may stand for databases in any file space
+    bool partial = false;
+
     std::set<std::string> keystrings;
     for (const auto& key : keys) {
         keystrings.insert(key.valuesToString());
+        partial = partial || std::any_of(key.begin(), key.end(), [](const auto& kv) { return kv.second.empty(); });
     }
 
     LOG_DEBUG_LIB(LibFdb5) << "RootManager::visitableRoots() trying to match keys " << keystrings << std::endl;
@@ -636,7 +640,7 @@ std::vector<PathName> RootManager::visitableRoots(const std::set<Key>& keys) {
 
         bool matched = false;
         for (const std::string& k : keystrings) {
-            if (space.match(k) || k.empty()) {
+            if (partial || space.match(k) || k.empty()) {
                 LOG_DEBUG_LIB(LibFdb5) << "MATCH space " << space << std::endl;
                 space.enabled(ControlIdentifier::List, roots);
                 matched = true;
-- 
2.43.0


From 61acd471f05810eb2722218ddcc9333b523c9acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:44 +0000
Subject: [PATCH 15/48] fix: a root selected for a new database permitted
 everything

Data were retrieved through a root that does not permit it.
---
 src/fdb5/toc/FileSpace.cc | 13 ++++++++++++-
 src/fdb5/toc/FileSpace.h  |  3 +++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/fdb5/toc/FileSpace.cc b/src/fdb5/toc/FileSpace.cc
index 8fa31b0..54ed26d 100644
--- a/src/fdb5/toc/FileSpace.cc
+++ b/src/fdb5/toc/FileSpace.cc
@@ -52,7 +52,18 @@ TocPath FileSpace::filesystem(const Config& config, const Key& key, const eckit:
     LOG_DEBUG_LIB(LibFdb5) << "FDB for key " << key << " not found, selecting a root" << std::endl;
     LOG_DEBUG_LIB(LibFdb5) << "FDB for key " << key << " not found, selecting a root" << std::endl;
 
-    return TocPath{FileSpaceHandler::lookup(handler_, config).selectFileSystem(key, *this) / db, ControlIdentifiers{}};
+    const eckit::PathName root = FileSpaceHandler::lookup(handler_, config).selectFileSystem(key, *this);
+
+    return TocPath{root / db, controlIdentifiers(root)};
+}
+
+ControlIdentifiers FileSpace::controlIdentifiers(const eckit::PathName& root) const {
+    for (const auto& r : roots_) {
+        if (r.path() == root) {
+            return r.controlIdentifiers();
+        }
+    }
+    return ControlIdentifiers{};
 }
 
 std::vector<eckit::PathName> FileSpace::enabled(const ControlIdentifier& controlIdentifier) const {
diff --git a/src/fdb5/toc/FileSpace.h b/src/fdb5/toc/FileSpace.h
index 654e7f5..e65fc83 100644
--- a/src/fdb5/toc/FileSpace.h
+++ b/src/fdb5/toc/FileSpace.h
@@ -70,6 +70,9 @@ private:  // methods
 
     bool existsDB(const Key& key, const eckit::PathName& db, TocPath& existsDB) const;
 
+    /// What the root at this path does not permit
+    ControlIdentifiers controlIdentifiers(const eckit::PathName& root) const;
+
     void print(std::ostream& out) const;
 
 private:  // members
-- 
2.43.0


From 6755bbc9b26902677012dc66c36921ae6661ecb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:15 +0000
Subject: [PATCH 16/48] fix: databases whose names hold characters special in
 regular expressions were not listed

Values, and the fixed text of dbnames formats, are escaped in the expressions
that directories are matched with.
---
 src/fdb5/toc/RootManager.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fdb5/toc/RootManager.cc b/src/fdb5/toc/RootManager.cc
index c258d11..a0df830 100644
--- a/src/fdb5/toc/RootManager.cc
+++ b/src/fdb5/toc/RootManager.cc
@@ -164,7 +164,7 @@ private:  // methods
                                 result += missing;
                             }
                             else {
-                                result += iter->second;
+                                result += Regex::escape(iter->second);
                             }
                         }
                     }
@@ -181,7 +181,7 @@ private:  // methods
                         word += s[i];
                     }
                     else {
-                        result += s[i];
+                        result += missing ? Regex::escape(s.substr(i, 1)) : s.substr(i, 1);
                     }
                     break;
             }
@@ -579,7 +579,7 @@ std::vector<std::string> RootManager::possibleDbPathNames(const Key& key, const
     for (const auto& k : key.names()) {
         const auto& v = key.get(k);
         oss << sep;
-        oss << (v == missing || v.empty() ? missing : v);
+        oss << (v == missing || v.empty() ? missing : Regex::escape(v));
         sep = ":";
     }
     result.push_back(oss.str());
-- 
2.43.0


From 99a76d527595a74b6d8b50e53e69d5a402cda8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:01 +0000
Subject: [PATCH 17/48] fix: retrieval through a select FDB returned a copy of
 a field from each member that holds it

---
 src/fdb5/api/SelectFDB.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fdb5/api/SelectFDB.cc b/src/fdb5/api/SelectFDB.cc
index 983436f..c6f29c7 100644
--- a/src/fdb5/api/SelectFDB.cc
+++ b/src/fdb5/api/SelectFDB.cc
@@ -107,7 +107,8 @@ ListIterator SelectFDB::inspect(const MarsRequest& request) {
         }
     }
 
-    return ListIterator(new ListAggregateIterator(std::move(lists)));
+    // Members may overlap: only the first one's copy of a field
+    return ListIterator(new ListAggregateIterator(std::move(lists)), ListMode::Deduplicate);
 }
 
 template <typename QueryFN>
-- 
2.43.0


From 38b2de54b45ede9902948d94f4c479dbbfff3413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:24 +0000
Subject: [PATCH 18/48] fix: a move put the data of a database with another
 directory name where they were not found

---
 src/fdb5/toc/TocStore.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fdb5/toc/TocStore.cc b/src/fdb5/toc/TocStore.cc
index 52d72af..5f0d353 100644
--- a/src/fdb5/toc/TocStore.cc
+++ b/src/fdb5/toc/TocStore.cc
@@ -358,7 +358,7 @@ void TocStore::moveTo(const Key& key, const Config& config, const eckit::URI& de
     for (const eckit::PathName& root : StoreRootManager(config).canMoveToRoots(key)) {
         if (root.sameAs(destPath)) {
             eckit::PathName src_db = directory_;
-            eckit::PathName dest_db = destPath / key.valuesToString();
+            eckit::PathName dest_db = destPath / src_db.baseName(true);
 
             dest_db.mkdir();
             DIR* dirp = ::opendir(src_db.asString().c_str());
-- 
2.43.0


From 554553a0e7619df957c7fccaefbc34e6fa0466fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:12 +0000
Subject: [PATCH 19/48] fix: a move removed the source although some of its
 files could not be copied

---
 src/fdb5/tools/fdb-move.cc | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/src/fdb5/tools/fdb-move.cc b/src/fdb5/tools/fdb-move.cc
index 6089379..cafb373 100644
--- a/src/fdb5/tools/fdb-move.cc
+++ b/src/fdb5/tools/fdb-move.cc
@@ -10,6 +10,8 @@
 
 #include <unistd.h>
 
+#include <atomic>
+
 #include "eckit/distributed/Consumer.h"
 #include "eckit/distributed/Message.h"
 #include "eckit/distributed/Producer.h"
@@ -215,6 +217,29 @@ private:  // attributes
 
 //----------------------------------------------------------------------------------------------------------------------
 
+/// Copies a file in one of the threads of a pool, which does not tell of failures
+class MoveTask : public eckit::ThreadPoolTask {
+public:  // methods
+
+    MoveTask(eckit::distributed::Message& message, std::atomic<size_t>& failures) :
+        fileCopy_(message), failures_(failures) {}
+
+    void execute() override {
+        try {
+            fileCopy_.execute();
+        }
+        catch (...) {
+            failures_++;
+            throw;
+        }
+    }
+
+private:  // members
+
+    fdb5::FileCopy fileCopy_;
+    std::atomic<size_t>& failures_;
+};
+
 class MoveLoner : public eckit::distributed::Actor {
 public:  // methods
 
@@ -230,12 +255,13 @@ private:  // methods
         eckit::distributed::Producer& producer = *producer_;
         eckit::distributed::Consumer& consumer = *consumer_;
 
+        std::atomic<size_t> failures{0};
         eckit::ThreadPool pool("move", numThreads_);
 
         while (producer.produce(message)) {
             message.rewind();
             try {
-                pool.push(new FileCopy(message));
+                pool.push(new MoveTask(message, failures));
             }
             catch (eckit::Exception& e) {
                 eckit::Log::error() << e.what() << std::endl;
@@ -245,6 +271,12 @@ private:  // methods
         }
         pool.wait();
 
+        if (failures) {
+            std::ostringstream ss;
+            ss << failures << " file(s) could not be copied. The source is left as it was";
+            throw eckit::WriteError(ss.str(), Here());
+        }
+
         message.rewind();
         consumer.shutdown(message);
         message.rewind();
-- 
2.43.0


From 30d1af34a9b318c1a9b467c4c38b38d253c3d365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:12 +0000
Subject: [PATCH 20/48] fix: a move that was interrupted while it copied the
 toc left an unreadable database at the destination

---
 src/fdb5/api/helpers/MoveIterator.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/fdb5/api/helpers/MoveIterator.h b/src/fdb5/api/helpers/MoveIterator.h
index 932ac17..4739208 100644
--- a/src/fdb5/api/helpers/MoveIterator.h
+++ b/src/fdb5/api/helpers/MoveIterator.h
@@ -54,9 +54,14 @@ public:
     bool sync() { return sync_; }
 
     void execute() {
+        // what makes the others visible must not be seen before it is complete
+        const eckit::PathName target = sync_ ? eckit::PathName(dest_.asString() + ".partial") : dest_;
         eckit::FileHandle src(src_);
-        eckit::FileHandle dest(dest_);
+        eckit::FileHandle dest(target);
         src.copyTo(dest);
+        if (sync_) {
+            eckit::PathName::rename(target, dest_);
+        }
     }
 
     void cleanup() {
-- 
2.43.0


From ff65692b8685a189ad2907ede92686c09c2e84fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:40 +0000
Subject: [PATCH 21/48] fix: a move ended in a crash where a directory could
 not be read

---
 src/fdb5/toc/TocMoveVisitor.cc | 14 +++++++++++---
 src/fdb5/toc/TocStore.cc       |  3 +++
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/fdb5/toc/TocMoveVisitor.cc b/src/fdb5/toc/TocMoveVisitor.cc
index 47dace3..d7e3a57 100644
--- a/src/fdb5/toc/TocMoveVisitor.cc
+++ b/src/fdb5/toc/TocMoveVisitor.cc
@@ -37,6 +37,14 @@ namespace fdb5 {
 
 // TODO: Warnings and errors form inside here back to the user.
 
+static DIR* openDirectory(const eckit::PathName& path) {
+    DIR* dirp = ::opendir(path.localPath());
+    if (!dirp) {
+        throw FailedSystemCall("opendir " + path.asString(), Here());
+    }
+    return dirp;
+}
+
 TocMoveVisitor::TocMoveVisitor(const TocCatalogue& catalogue, const Store& store,
                                const metkit::mars::MarsRequest& request, const eckit::URI& dest,
                                eckit::Queue<MoveElement>& queue) :
@@ -52,7 +60,7 @@ bool TocMoveVisitor::visitDatabase(const Catalogue& catalogue) {
     MoveVisitor::visitDatabase(catalogue_);
 
     // TOC specific checks: index files not locked
-    DIR* dirp = ::opendir(catalogue_.basePath().c_str());
+    DIR* dirp = openDirectory(catalogue_.basePath());
     struct dirent* dp;
     while ((dp = readdir(dirp)) != NULL) {
         if (strstr(dp->d_name, ".index")) {
@@ -120,7 +128,7 @@ void TocMoveVisitor::move() {
                 dest_db.mkdir();
             }
 
-            DIR* dirp = ::opendir(catalogue_.basePath().c_str());
+            DIR* dirp = openDirectory(catalogue_.basePath());
             struct dirent* dp;
             while ((dp = readdir(dirp)) != NULL) {
                 if (strstr(dp->d_name, ".index") || strstr(dp->d_name, "toc.") || strstr(dp->d_name, "schema")) {
@@ -134,7 +142,7 @@ void TocMoveVisitor::move() {
             FileCopy toc(catalogue_.basePath(), dest_db, "toc", true);
             queue_.emplace(toc);
 
-            dirp = ::opendir(catalogue_.basePath().c_str());
+            dirp = openDirectory(catalogue_.basePath());
             while ((dp = readdir(dirp)) != NULL) {
                 if (strstr(dp->d_name, ".lock") || strstr(dp->d_name, "duplicates.allow")) {
 
diff --git a/src/fdb5/toc/TocStore.cc b/src/fdb5/toc/TocStore.cc
index 5f0d353..fc858ff 100644
--- a/src/fdb5/toc/TocStore.cc
+++ b/src/fdb5/toc/TocStore.cc
@@ -362,6 +362,9 @@ void TocStore::moveTo(const Key& key, const Config& config, const eckit::URI& de
 
             dest_db.mkdir();
             DIR* dirp = ::opendir(src_db.asString().c_str());
+            if (!dirp) {
+                throw eckit::FailedSystemCall("opendir " + src_db.asString(), Here());
+            }
             struct dirent* dp;
             std::multimap<long, std::unique_ptr<FileCopy>, std::greater<long>> files;
             while ((dp = ::readdir(dirp)) != NULL) {
-- 
2.43.0


From 2cb4a603c943d24a010c7ced5516d9239e9a8545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:47 +0000
Subject: [PATCH 22/48] fix: read the table of contents when it is not cached
 (FDB_CACHE_TOCS_ON_READ=0)

---
 src/fdb5/toc/TocHandler.cc | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/fdb5/toc/TocHandler.cc b/src/fdb5/toc/TocHandler.cc
index db06bd7..bdaf129 100644
--- a/src/fdb5/toc/TocHandler.cc
+++ b/src/fdb5/toc/TocHandler.cc
@@ -12,7 +12,9 @@
 #include <pwd.h>
 #include <sys/types.h>
 #include <cstddef>
+#include <deque>
 #include <utility>
+#include <vector>
 
 #include "eckit/config/Resource.h"
 #include "eckit/filesystem/PathName.h"
@@ -1401,6 +1403,10 @@ std::vector<Index> TocHandler::loadIndexes(bool sorted, std::set<std::string>* s
     };
     std::vector<IndexEntry> indexEntries;
 
+    // If the toc is not cached in memory, there is no data to point to, so the index records need to be retained
+    const bool cached = !!cachedToc_;
+    std::deque<std::vector<unsigned char>> records;
+
     bool debug = LibFdb5::instance().debug();
     bool walkSubTocs = true;
     bool hideSubTocEntries = true;
@@ -1408,7 +1414,8 @@ std::vector<Index> TocHandler::loadIndexes(bool sorted, std::set<std::string>* s
     bool readMasked = false;
     const TocRecord* pdata;
     size_t dataLength;
-    while (readNext(*r, walkSubTocs, hideSubTocEntries, hideClearEntries, readMasked, &pdata, &dataLength)) {
+    while (readNext(*r, walkSubTocs, hideSubTocEntries, hideClearEntries, readMasked, cached ? &pdata : nullptr,
+                    &dataLength)) {
 
         eckit::MemoryStream s(&r->payload_[0], r->maxPayloadSize);
         std::string path;
@@ -1428,6 +1435,11 @@ std::vector<Index> TocHandler::loadIndexes(bool sorted, std::set<std::string>* s
                 break;
 
             case TocRecord::TOC_INDEX:
+                if (!cached) {
+                    const auto* begin = reinterpret_cast<const unsigned char*>(r.get());
+                    records.emplace_back(begin, begin + dataLength);
+                    pdata = reinterpret_cast<const TocRecord*>(records.back().data());
+                }
                 indexEntries.emplace_back(IndexEntry{indexEntries.size(), pdata, dataLength, currentDirectory()});
 
                 if (subTocs && subTocRead_) {
-- 
2.43.0


From 83f6dd8dc2dad4a50259b9dbd720d19d16d137c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:03 +0000
Subject: [PATCH 23/48] fix: dropping an iterator over a dump or purge does not
 end the process

---
 src/fdb5/api/local/QueueStringLogTarget.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/fdb5/api/local/QueueStringLogTarget.h b/src/fdb5/api/local/QueueStringLogTarget.h
index 8c95840..0632694 100644
--- a/src/fdb5/api/local/QueueStringLogTarget.h
+++ b/src/fdb5/api/local/QueueStringLogTarget.h
@@ -23,6 +23,8 @@
 #include "eckit/log/Channel.h"
 #include "eckit/log/LineBasedTarget.h"
 
+#include "fdb5/api/helpers/APIIterator.h"
+
 #include <string>
 
 namespace fdb5 {
@@ -38,7 +40,15 @@ public:
 
     QueueStringLogTarget(eckit::Queue<std::string>& queue) : queue_(queue) {}
 
-    void line(const char* line) override { queue_.emplace(std::string(line)); }
+    void line(const char* line) override {
+        try {
+            queue_.emplace(std::string(line));
+        }
+        catch (const AsyncIterationCancellation&) {
+            // The iterator has been dropped, so there is nowhere for the output to go.
+            // n.b. This is also called when the channel is destroyed, when it must not throw.
+        }
+    }
 
 private:  // members
 
-- 
2.43.0


From 6ad027501864875222102f85a2c05eef646a03aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:15 +0000
Subject: [PATCH 24/48] fix: releasing an axis checks its use with the
 registry's lock held

---
 src/fdb5/database/AxisRegistry.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fdb5/database/AxisRegistry.cc b/src/fdb5/database/AxisRegistry.cc
index 4eca643..7823190 100644
--- a/src/fdb5/database/AxisRegistry.cc
+++ b/src/fdb5/database/AxisRegistry.cc
@@ -27,12 +27,14 @@ AxisRegistry& AxisRegistry::instance() {
 
 void AxisRegistry::release(const keyword_t& keyword, std::shared_ptr<axis_t>& ptr) {
 
+    eckit::AutoLock<eckit::Mutex> lock(mutex_);
+
+    // Only with the lock held: otherwise another thread may be given the same axis in the meantime
+
     if (ptr.use_count() != 2) {
         return;
     }
 
-    eckit::AutoLock<eckit::Mutex> lock(mutex_);
-
     axis_map_t::iterator it = axes_.find(keyword);
     ASSERT(it != axes_.end());
 
-- 
2.43.0


From 3410dc63361296c69aeea638241f6dac627cf943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:10 +0000
Subject: [PATCH 25/48] fix: a single excluded value excludes it, and excluded
 values are printed as such

---
 src/fdb5/rules/ExcludeAll.cc   | 2 +-
 src/fdb5/rules/SchemaParser.cc | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fdb5/rules/ExcludeAll.cc b/src/fdb5/rules/ExcludeAll.cc
index 2f95dab..440f999 100644
--- a/src/fdb5/rules/ExcludeAll.cc
+++ b/src/fdb5/rules/ExcludeAll.cc
@@ -65,7 +65,7 @@ bool ExcludeAll::match(const std::string& value) const {
 void ExcludeAll::dump(std::ostream& s, const std::string& keyword, const TypesRegistry& registry) const {
     const char* sep = "";
     registry.dump(s, keyword);
-    s << "=";
+    s << "=!";
     for (std::set<std::string>::const_iterator i = values_.begin(); i != values_.end(); ++i) {
         s << sep << *i;
         sep = "/";
diff --git a/src/fdb5/rules/SchemaParser.cc b/src/fdb5/rules/SchemaParser.cc
index ae71d71..5f72fa8 100644
--- a/src/fdb5/rules/SchemaParser.cc
+++ b/src/fdb5/rules/SchemaParser.cc
@@ -116,6 +116,9 @@ std::unique_ptr<Predicate> SchemaParser::parsePredicate(eckit::StringDict& types
         case 0:
             return std::make_unique<Predicate>(k, new MatchAlways());
         case 1:
+            if (exclude) {
+                return std::make_unique<Predicate>(k, new ExcludeAll(values));
+            }
             return std::make_unique<Predicate>(k, new MatchValue(*values.begin()));
         default:
             if (exclude) {
-- 
2.43.0


From 4da2d63db82ff42ed7dde188e66505b52c99512e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:43 +0000
Subject: [PATCH 26/48] fix: the name of a database is matched by rules with as
 many keywords only

---
 src/fdb5/rules/Rule.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fdb5/rules/Rule.cc b/src/fdb5/rules/Rule.cc
index 43cffe5..51aa7b1 100644
--- a/src/fdb5/rules/Rule.cc
+++ b/src/fdb5/rules/Rule.cc
@@ -213,7 +213,10 @@ std::optional<Key> Rule::findMatchingKey(const eckit::StringList& values) const
         return {};
     }
 
-    ASSERT(values.size() >= requiredPredicateCount(predicates_));
+    // one value for each predicate (an empty one where an optional keyword has none): otherwise it is another rule's
+    if (values.size() != predicates_.size()) {
+        return {};
+    }
 
     TypedKey key(registry_);
 
-- 
2.43.0


From c56e379097e7e2265d0fef8fa951ef26f3af42b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:57 +0000
Subject: [PATCH 27/48] fix: data files of an index whose key begins with an
 empty value can be read

---
 src/fdb5/database/UriStore.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fdb5/database/UriStore.cc b/src/fdb5/database/UriStore.cc
index f0867a4..b4bddb3 100644
--- a/src/fdb5/database/UriStore.cc
+++ b/src/fdb5/database/UriStore.cc
@@ -37,7 +37,10 @@ UriStore::UriStore(const eckit::PathName& directory, eckit::Stream& s) :
 
         s >> id;
         s >> p;
-        eckit::URI uri(p);
+
+        // The name of a file in the directory begins with ':' if that of an index does (its first value is empty):
+        // this is no URI without a scheme
+        eckit::URI uri = (!p.empty() && p[0] == ':') ? eckit::URI("file", directory_ / p) : eckit::URI(p);
 
         if ((uri.scheme() == "unix") || (uri.scheme() == "file")) {
             eckit::PathName path = uri.path();
-- 
2.43.0


From c61c2046316a59d5aed9ec0160595afa6bd0fbc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:04 +0000
Subject: [PATCH 28/48] fix: metadata that are not in canonical form are
 refused before the field is stored

---
 src/fdb5/database/Archiver.cc | 2 --
 src/fdb5/rules/Rule.cc        | 3 +++
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fdb5/database/Archiver.cc b/src/fdb5/database/Archiver.cc
index 076abda..3bc6f05 100644
--- a/src/fdb5/database/Archiver.cc
+++ b/src/fdb5/database/Archiver.cc
@@ -65,8 +65,6 @@ void Archiver::archive(const Key& key, BaseArchiveVisitor& visitor) {
         oss << "FDB: Could not find a rule to archive " << key;
         throw eckit::SeriousBug(oss.str());
     }
-    // validate metadata
-    rule->check(key);
 }
 
 void Archiver::flushDatabase(Database& db) {
diff --git a/src/fdb5/rules/Rule.cc b/src/fdb5/rules/Rule.cc
index 51aa7b1..fa9c969 100644
--- a/src/fdb5/rules/Rule.cc
+++ b/src/fdb5/rules/Rule.cc
@@ -565,6 +565,9 @@ bool RuleDatum::expand(const Key& field, WriteVisitor& visitor, Key& full) const
             throw eckit::SeriousBug(oss.str());
         }
 
+        // validate metadata, before anything is stored
+        check(field);
+
         if (visitor.selectDatum(*key, full)) {
             visitor.rule(this);
             static const bool matchFirstFdbRule = eckit::Resource<bool>("matchFirstFdbRule", true);
-- 
2.43.0


From 2719dbd1a1b35f310b82204352aa2fd5552e6b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:04 +0000
Subject: [PATCH 29/48] fix: a keyword that is removed from a key is removed
 from its names, too

---
 src/fdb5/database/BaseKey.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fdb5/database/BaseKey.cc b/src/fdb5/database/BaseKey.cc
index f8360ff..bfd563c 100644
--- a/src/fdb5/database/BaseKey.cc
+++ b/src/fdb5/database/BaseKey.cc
@@ -18,6 +18,7 @@
 
 #include "metkit/mars/MarsRequest.h"
 
+#include <algorithm>
 #include <cstddef>
 #include <ostream>
 #include <sstream>
@@ -105,6 +106,7 @@ void BaseKey::set(const std::string& keyword, const std::string& value) {
 
 void BaseKey::unset(const std::string& keyword) {
     keys_.erase(keyword);
+    names_.erase(std::remove(names_.begin(), names_.end(), keyword), names_.end());
 }
 
 void BaseKey::push(const std::string& keyword, const std::string& value) {
-- 
2.43.0


From 46387f9a1712ac2a0e887556b3e6b5e8a178f797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:04 +0000
Subject: [PATCH 30/48] fix: values of type Double that differ are not stored
 under the same key

---
 src/fdb5/types/TypeDouble.cc | 46 ++++++++++++++++++++++++++----------
 1 file changed, 34 insertions(+), 12 deletions(-)

diff --git a/src/fdb5/types/TypeDouble.cc b/src/fdb5/types/TypeDouble.cc
index eace950..c12da6a 100644
--- a/src/fdb5/types/TypeDouble.cc
+++ b/src/fdb5/types/TypeDouble.cc
@@ -8,6 +8,11 @@
  * does it submit to any jurisdiction.
  */
 
+#include <cstdlib>
+#include <iomanip>
+#include <limits>
+#include <sstream>
+
 #include "eckit/utils/Translator.h"
 
 #include "metkit/mars/MarsRequest.h"
@@ -19,20 +24,39 @@ namespace fdb5 {
 
 //----------------------------------------------------------------------------------------------------------------------
 
-TypeDouble::TypeDouble(const std::string& name, const std::string& type) : Type(name, type) {}
+namespace {
 
-TypeDouble::~TypeDouble() {}
+/// As few digits as identify the value, but no fewer than 6: values that differ have different keys
+std::string format(double v) {
 
-std::string TypeDouble::toKey(const std::string& value) const {
-    double v = eckit::Translator<std::string, double>()(value);
-    long long ll = static_cast<long long>(v);
+    constexpr double exact = 1LL << 53;
 
-    if (ll == v) {
-        return eckit::Translator<long long, std::string>()(ll);
+    if (v >= -exact && v <= exact && v == static_cast<long long>(v)) {
+        return eckit::Translator<long long, std::string>()(static_cast<long long>(v));
     }
-    else {
-        return eckit::Translator<double, std::string>()(v);
+
+    std::string result;
+
+    for (int precision = 6; precision <= std::numeric_limits<double>::max_digits10; ++precision) {
+        std::ostringstream out;
+        out << std::setprecision(precision) << v;
+        result = out.str();
+        if (std::strtod(result.c_str(), nullptr) == v) {
+            break;
+        }
     }
+
+    return result;
+}
+
+}  // namespace
+
+TypeDouble::TypeDouble(const std::string& name, const std::string& type) : Type(name, type) {}
+
+TypeDouble::~TypeDouble() {}
+
+std::string TypeDouble::toKey(const std::string& value) const {
+    return format(eckit::Translator<std::string, double>()(value));
 }
 
 void TypeDouble::getValues(const metkit::mars::MarsRequest& request, const std::string& keyword,
@@ -41,12 +65,10 @@ void TypeDouble::getValues(const metkit::mars::MarsRequest& request, const std::
 
     request.getValues(keyword, dblValues, true);
 
-    eckit::Translator<double, std::string> t;
-
     values.reserve(dblValues.size());
 
     for (std::vector<double>::const_iterator i = dblValues.begin(); i != dblValues.end(); ++i) {
-        values.push_back(t(*i));
+        values.push_back(format(*i));
     }
 }
 
-- 
2.43.0


From 20642c1cc264a5820b9633c52854153c9039f858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:02 +0000
Subject: [PATCH 31/48] fix: data written over a single connection is not
 overtaken by the flush that follows it

With one connection for data and control, the data went through a queue and
its own thread, while the flush went to the socket directly. When the flush
got there first, the server waited for field locations which only the waiting
thread could have read.
---
 src/fdb5/remote/client/ClientConnection.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/fdb5/remote/client/ClientConnection.cc b/src/fdb5/remote/client/ClientConnection.cc
index c75e32f..0f94fde 100644
--- a/src/fdb5/remote/client/ClientConnection.cc
+++ b/src/fdb5/remote/client/ClientConnection.cc
@@ -224,6 +224,13 @@ void ClientConnection::dataWrite(Client& client, remote::Message msg, uint32_t r
         ASSERT(clients_.find(client.clientId()) != clients_.end());
     }
 
+    if (single_) {
+        // There is one stream for data and control messages: a control message (e.g. Flush) which is sent after the
+        // data must not overtake it, as the server would wait for data that it cannot read any more.
+        Connection::write(msg, false, client.clientId(), requestID, std::move(payloads));
+        return;
+    }
+
     {
         std::lock_guard lock(dataWriteMutex_);
         if (!dataWriteThread_.joinable()) {
-- 
2.43.0


From 8021578154da66f96a97d617486271b993cbff66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:48 +0000
Subject: [PATCH 32/48] fix: parts of a chunked view with fields of different
 sizes are refused

The values of the smaller or larger fields ended up at wrong places of the
chunk.
---
 src/chunked_data_view/ChunkedDataViewImpl.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/chunked_data_view/ChunkedDataViewImpl.cc b/src/chunked_data_view/ChunkedDataViewImpl.cc
index 2e11627..4756f16 100644
--- a/src/chunked_data_view/ChunkedDataViewImpl.cc
+++ b/src/chunked_data_view/ChunkedDataViewImpl.cc
@@ -81,6 +81,10 @@ ChunkedDataViewImpl::ChunkedDataViewImpl(std::vector<std::pair<ViewPart, std::sh
         size_t extensionOnExtensionAxis = 0;
 
         for (const auto& [part, _] : parts_) {
+            if (part.layout().countValues != first_part.layout().countValues) {
+                throw eckit::UserError(
+                    "ChunkedDataViewImpl: Field size mismatch. All fields in a view need to be of equal size.");
+            }
             for (size_t idx = 0; idx < chunkedDataViewShape_.size(); ++idx) {
                 if (idx == extensionAxisIndex_) {
                     extensionOnExtensionAxis += part.extension()[idx];
-- 
2.43.0


From a116207f5b9bb6abeea72c5a5a4d65cfb97d51e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:48 +0000
Subject: [PATCH 33/48] fix: a field returned twice does not hide another one
 that is missing from a chunk

The messages were counted, not the places which they fill: the buffer kept
what it held before where the missing field belongs.
---
 src/chunked_data_view/GribExtractor.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/chunked_data_view/GribExtractor.cc b/src/chunked_data_view/GribExtractor.cc
index bd958e6..d4542e2 100644
--- a/src/chunked_data_view/GribExtractor.cc
+++ b/src/chunked_data_view/GribExtractor.cc
@@ -25,6 +25,7 @@
 #include <cstddef>
 #include <memory>
 #include <ostream>
+#include <set>
 #include <sstream>
 
 namespace chunked_data_view {
@@ -75,7 +76,7 @@ size_t GribExtractor::writeInto(std::unique_ptr<ListIteratorInterface> list_iter
                                 float* ptr, size_t len) const {
 
     bool iterator_empty = true;
-    size_t messagesWritten = 0;
+    std::set<size_t> written;  // positions in the buffer: one message each
 
     while (auto res = list_iterator->next()) {
 
@@ -104,12 +105,16 @@ size_t GribExtractor::writeInto(std::unique_ptr<ListIteratorInterface> list_iter
                    << ". All fields in your view need to be of equal size.";
                 throw eckit::Exception(ss.str());
             }
+            if (!written.insert(msgIndex).second) {
+                std::ostringstream ss;
+                ss << "GribExtractor: More than one GRIB message found for key: " << key;
+                throw eckit::Exception(ss.str());
+            }
             msg.getFloatArray("values", copyInto, ctx.layout.countValues);
             if (msg.getLong("bitmapPresent") != 0) {
                 const auto gribMissing = static_cast<float>(msg.getDouble("missingValue"));
                 std::replace(copyInto, copyInto + ctx.layout.countValues, gribMissing, fillValue_);
             }
-            messagesWritten++;
         }
     }
 
@@ -118,7 +123,7 @@ size_t GribExtractor::writeInto(std::unique_ptr<ListIteratorInterface> list_iter
             "GribExtractor: Empty iterator for request. Is the request correctly specified?");
     }
 
-    return messagesWritten;
+    return written.size();
 }
 
 size_t GribExtractor::extractInto(const ViewPart& part, const ChunkedDataViewPartBoundingBox& chunkBoundingBox,
-- 
2.43.0


From 453373cbc64890635a2a0cf959323348efdc7ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:41 +0000
Subject: [PATCH 34/48] fix: over a single connection, data are not taken for
 the response to a request

---
 src/fdb5/remote/client/ClientConnection.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fdb5/remote/client/ClientConnection.cc b/src/fdb5/remote/client/ClientConnection.cc
index 0f94fde..98a2d6b 100644
--- a/src/fdb5/remote/client/ClientConnection.cc
+++ b/src/fdb5/remote/client/ClientConnection.cc
@@ -405,8 +405,11 @@ void ClientConnection::listeningControlThreadLoop() {
 
                 ASSERT(hdr.control() || single_);
 
+                // Over a single connection, data may precede the response to the request they belong to
+                const bool isResponse = hdr.control() || hdr.message == Message::Error;
+
                 bool isPromise = false;
-                {
+                if (isResponse) {
                     // Hold promisesMutex_ only for the promise lookup/erase (NOT across handle(); risk a deadlock.
                     std::lock_guard lock(promisesMutex_);
 
-- 
2.43.0


From b7d388dcaba669873809f6fb9a1dd4882c8704bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:03 +0000
Subject: [PATCH 35/48] fix: the text of an error reported by a server is not
 lost by the client

---
 src/fdb5/api/RemoteFDB.cc                  |  4 +---
 src/fdb5/remote/client/ClientConnection.cc | 12 ++++--------
 src/fdb5/remote/client/RemoteStore.cc      |  4 +---
 3 files changed, 6 insertions(+), 14 deletions(-)

diff --git a/src/fdb5/api/RemoteFDB.cc b/src/fdb5/api/RemoteFDB.cc
index b659412..48e312a 100644
--- a/src/fdb5/api/RemoteFDB.cc
+++ b/src/fdb5/api/RemoteFDB.cc
@@ -404,9 +404,7 @@ bool RemoteFDB::handle(remote::Message message, uint32_t requestID, Buffer&& pay
                 // goes out of scope in the worker thread).
                 messageQueues_.erase(iter);
             }
-            std::string msg;
-            msg.resize(payload.size(), ' ');
-            payload.copy(&msg[0], payload.size());
+            std::string msg(static_cast<const char*>(payload.data()), payload.size());
             queue->interrupt(std::make_exception_ptr(RemoteFDBException(msg, controlEndpoint())));
             return true;
         }
diff --git a/src/fdb5/remote/client/ClientConnection.cc b/src/fdb5/remote/client/ClientConnection.cc
index 98a2d6b..55e7e4f 100644
--- a/src/fdb5/remote/client/ClientConnection.cc
+++ b/src/fdb5/remote/client/ClientConnection.cc
@@ -416,9 +416,9 @@ void ClientConnection::listeningControlThreadLoop() {
                     auto pp = promises_.find(hdr.requestID);
                     if (pp != promises_.end()) {
                         if (hdr.message == Message::Error) {
-                            std::string msg(hdr.payloadSize, ' ');
+                            std::string msg;
                             if (hdr.payloadSize != 0) {
-                                payload.copy(msg.data(), payload.size());
+                                msg.assign(static_cast<const char*>(payload.data()), payload.size());
                             }
                             pp->second.set_exception(
                                 std::make_exception_ptr(RemoteFDBException(msg, controlEndpoint_)));
@@ -465,9 +465,7 @@ void ClientConnection::listeningControlThreadLoop() {
                         ss << "RemoteFDB received an unhandled error on CONTROL connection. [clientID="
                            << hdr.clientID() << ",requestID=" << hdr.requestID << "]";
                         if (hdr.payloadSize) {
-                            std::string msg;
-                            msg.resize(payload.size(), ' ');
-                            payload.copy(msg.data(), payload.size());
+                            std::string msg(static_cast<const char*>(payload.data()), payload.size());
                             ss << ": " << msg;
                         }
                         throw RemoteFDBException(ss.str(), controlEndpoint_);
@@ -550,9 +548,7 @@ void ClientConnection::listeningDataThreadLoop() {
                         ss << "RemoteFDB received an unhandled error on DATA connection. [clientID=" << hdr.clientID()
                            << ",requestID=" << hdr.requestID << "]";
                         if (hdr.payloadSize) {
-                            std::string msg;
-                            msg.resize(payload.size(), ' ');
-                            payload.copy(msg.data(), payload.size());
+                            std::string msg(static_cast<const char*>(payload.data()), payload.size());
                             ss << ": " << msg;
                         }
                         throw RemoteFDBException(ss.str(), dataEndpoint_);
diff --git a/src/fdb5/remote/client/RemoteStore.cc b/src/fdb5/remote/client/RemoteStore.cc
index 5308eeb..2d4df54 100644
--- a/src/fdb5/remote/client/RemoteStore.cc
+++ b/src/fdb5/remote/client/RemoteStore.cc
@@ -434,9 +434,7 @@ bool RemoteStore::handle(Message message, uint32_t requestID, eckit::Buffer&& pa
             std::lock_guard lock(messageMutex_);
             auto iter = messageQueues_.find(requestID);
             if (iter != messageQueues_.end()) {
-                std::string msg;
-                msg.resize(payload.size(), ' ');
-                payload.copy(&msg[0], payload.size());
+                std::string msg(static_cast<const char*>(payload.data()), payload.size());
                 iter->second->interrupt(std::make_exception_ptr(RemoteFDBException(msg, controlEndpoint())));
 
                 // Remove entry (shared_ptr --> message queue will be destroyed when it
-- 
2.43.0


From a2c428e0ed6713976bd3b2c3d56ddff698d6ac98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:58 +0000
Subject: [PATCH 36/48] fix: a connection that is lost does not end the server,
 or leave it waiting

A threaded server was terminated when a client went without a word: the thread
that listens for data was destroyed while it was running, or let an exception
escape. A flush waited for ever for data that could not be archived, and errors
could not be reported where the connection was gone.
---
 src/fdb5/remote/Connection.cc              |  9 ++-
 src/fdb5/remote/server/CatalogueHandler.cc | 19 ++++++-
 src/fdb5/remote/server/CatalogueHandler.h  |  3 +
 src/fdb5/remote/server/ServerConnection.cc | 66 +++++++++++++++++-----
 src/fdb5/remote/server/ServerConnection.h  |  8 +++
 src/fdb5/remote/server/StoreHandler.cc     |  6 ++
 6 files changed, 96 insertions(+), 15 deletions(-)

diff --git a/src/fdb5/remote/Connection.cc b/src/fdb5/remote/Connection.cc
index 2d0be87..84516d4 100644
--- a/src/fdb5/remote/Connection.cc
+++ b/src/fdb5/remote/Connection.cc
@@ -134,7 +134,14 @@ void Connection::write(const Message msg, const bool control, const uint32_t cli
 
 void Connection::error(std::string_view msg, uint32_t clientID, uint32_t requestID) const {
     eckit::Log::error() << "[clientID=" << clientID << ",requestID=" << requestID << "]  " << msg << std::endl;
-    write(Message::Error, false, clientID, requestID, msg.data(), msg.length());
+    try {
+        write(Message::Error, false, clientID, requestID, msg.data(), msg.length());
+    }
+    catch (const std::exception& e) {
+        // There is no connection left to report the error on. It is called where exceptions are handled, some of them
+        // in threads that have nobody to handle another one.
+        eckit::Log::error() << "Error could not be reported: " << e.what() << std::endl;
+    }
 }
 
 eckit::Buffer Connection::readControl(MessageHeader& hdr) const {
diff --git a/src/fdb5/remote/server/CatalogueHandler.cc b/src/fdb5/remote/server/CatalogueHandler.cc
index 28cbfd8..25ff4f5 100644
--- a/src/fdb5/remote/server/CatalogueHandler.cc
+++ b/src/fdb5/remote/server/CatalogueHandler.cc
@@ -484,6 +484,9 @@ void CatalogueHandler::flush(uint32_t clientID, uint32_t requestID, eckit::Buffe
 
     {
         std::lock_guard<std::mutex> lock(fieldLocationsMutex_);
+        if (archiveError_) {
+            std::rethrow_exception(archiveError_);
+        }
         it->second.locationsExpected =
             numArchived;  // setting locationsExpected also means that a flush has been requested
         it->second.archivalCompleted = it->second.fieldLocationsReceived.get_future();
@@ -492,7 +495,7 @@ void CatalogueHandler::flush(uint32_t clientID, uint32_t requestID, eckit::Buffe
         }
     }
 
-    it->second.archivalCompleted.wait();
+    it->second.archivalCompleted.get();
     {
         std::lock_guard<std::mutex> lock(fieldLocationsMutex_);
         it->second.fieldLocationsReceived = std::promise<size_t>{};
@@ -506,6 +509,20 @@ void CatalogueHandler::flush(uint32_t clientID, uint32_t requestID, eckit::Buffe
     Log::status() << "Flush complete" << std::endl;
 }
 
+void CatalogueHandler::archiveFailed(std::exception_ptr error) {
+    std::lock_guard<std::mutex> lock(fieldLocationsMutex_);
+    if (archiveError_) {
+        return;
+    }
+    archiveError_ = error;
+    std::lock_guard<std::mutex> handlerLock(handlerMutex_);
+    for (auto& [clientID, archiver] : catalogues_) {
+        if (archiver.locationsExpected != 0 && archiver.locationsExpected != archiver.locationsArchived) {
+            archiver.fieldLocationsReceived.set_exception(error);  // a flush is waiting
+        }
+    }
+}
+
 // A helper function to make archiveThreadLoop a bit cleaner
 void CatalogueHandler::archiveBlob(const uint32_t clientID, const uint32_t requestID, const void* data, size_t length) {
 
diff --git a/src/fdb5/remote/server/CatalogueHandler.h b/src/fdb5/remote/server/CatalogueHandler.h
index 6fa7083..0958e77 100644
--- a/src/fdb5/remote/server/CatalogueHandler.h
+++ b/src/fdb5/remote/server/CatalogueHandler.h
@@ -16,6 +16,7 @@
 #include "fdb5/database/WipeState.h"
 #include "fdb5/remote/server/ServerConnection.h"
 
+#include <exception>
 #include <memory>
 
 namespace fdb5::remote {
@@ -74,6 +75,7 @@ private:  // methods
     void exists(uint32_t clientID, uint32_t requestID, eckit::Buffer&& payload) const;
 
     void archiveBlob(const uint32_t clientID, const uint32_t requestID, const void* data, size_t length) override;
+    void archiveFailed(std::exception_ptr error) override;
 
     bool remove(bool control, uint32_t clientID) override;
 
@@ -97,6 +99,7 @@ private:  // member
 
     std::mutex fdbMutex_;
     std::mutex fieldLocationsMutex_;
+    std::exception_ptr archiveError_;
 
     bool fdbControlConnection_;
     bool fdbDataConnection_;
diff --git a/src/fdb5/remote/server/ServerConnection.cc b/src/fdb5/remote/server/ServerConnection.cc
index 6655c2f..98fad38 100644
--- a/src/fdb5/remote/server/ServerConnection.cc
+++ b/src/fdb5/remote/server/ServerConnection.cc
@@ -304,9 +304,11 @@ size_t ServerConnection::archiveThreadLoop() {
             }
         }
     }
-    catch (...) {
-        // Ensure exception propagates across the queue back to the parent thread.
+    catch (const std::exception& e) {
+        // Ensure exception propagates across the queue back to the parent thread, and to the client
         archiveQueue_.interrupt(std::current_exception());
+        archiveFailed(std::current_exception());
+        error(e.what(), elem.clientID_, elem.requestID_);
         throw;
     }
 
@@ -367,12 +369,24 @@ void ServerConnection::listeningThreadLoopData() {
     }
     catch (std::exception& e) {
         // n.b. more general than eckit::Exception
+        // The connection is of no use any more: nobody handles exceptions of this thread, end the control listener.
+        archiveFailed(std::current_exception());
         error(e.what(), hdr.clientID(), hdr.requestID);
-        throw;
+        closeInput(controlSocket_);
     }
     catch (...) {
+        archiveFailed(std::current_exception());
         error("Caught unexpected, unknown exception in retrieve worker", hdr.clientID(), hdr.requestID);
-        throw;
+        closeInput(controlSocket_);
+    }
+}
+
+void ServerConnection::closeInput(eckit::net::TCPSocket& socket) {
+    try {
+        socket.closeInput();
+    }
+    catch (const std::exception& e) {
+        eckit::Log::error() << "Socket could not be closed: " << e.what() << std::endl;
     }
 }
 
@@ -381,6 +395,39 @@ void ServerConnection::handle() {
 
     std::thread listeningThreadData;
 
+    try {
+        listen(listeningThreadData);
+    }
+    catch (...) {
+        // The client has gone without a word. All the threads of the connection have to end before it does.
+        archiveFailed(std::current_exception());
+        archiveQueue_.interrupt(std::current_exception());
+        if (listeningThreadData.joinable()) {
+            closeInput(*dataSocket_);
+            listeningThreadData.join();
+        }
+        if (archiveFuture_.valid()) {
+            archiveFuture_.wait();
+        }
+        waitForWorkers();
+        throw;
+    }
+
+    if (listeningThreadData.joinable()) {
+        listeningThreadData.join();
+    }
+    archiveQueue_.close();
+
+    teardown();
+
+    if (archiveFuture_.valid()) {
+        archiveFuture_.wait();
+    }
+    waitForWorkers();
+}
+
+void ServerConnection::listen(std::thread& listeningThreadData) {
+
     MessageHeader hdr;
 
     // listen loop
@@ -449,14 +496,6 @@ void ServerConnection::handle() {
             }
         }
     }
-
-    if (listeningThreadData.joinable()) {
-        listeningThreadData.join();
-    }
-    ASSERT(archiveQueue_.empty());
-    archiveQueue_.close();
-
-    teardown();
 }
 
 void ServerConnection::handleException(std::exception_ptr e) {
@@ -508,9 +547,10 @@ void ServerConnection::waitForWorkers() {
     for (auto& it : workerThreads_) {
         eckit::Log::error() << "Worker thread still alive for request ID: " << it.first << std::endl;
         eckit::Log::error() << "Joining ..." << std::endl;
-        it.second.get();
+        it.second.wait();
         eckit::Log::error() << "Thread complete" << std::endl;
     }
+    workerThreads_.clear();
 
     std::lock_guard<std::mutex> lock(readLocationMutex_);
     if (readLocationWorker_.joinable()) {
diff --git a/src/fdb5/remote/server/ServerConnection.h b/src/fdb5/remote/server/ServerConnection.h
index 903d3fa..f423845 100644
--- a/src/fdb5/remote/server/ServerConnection.h
+++ b/src/fdb5/remote/server/ServerConnection.h
@@ -17,8 +17,10 @@
 
 #pragma once
 
+#include <exception>
 #include <future>
 #include <mutex>
+#include <thread>
 
 #include "eckit/container/Queue.h"
 #include "eckit/io/Buffer.h"
@@ -117,6 +119,9 @@ protected:
 
     virtual void archiveBlob(uint32_t clientID, uint32_t requestID, const void* data, size_t length) = 0;
 
+    // no more data will be archived, flushes must not wait for them
+    virtual void archiveFailed(std::exception_ptr /*error*/) {}
+
     // archival helper methods
     void archiver();
     void queue(Message message, uint32_t clientID, uint32_t requestID, eckit::Buffer&& payload);
@@ -125,8 +130,11 @@ protected:
 
 private:
 
+    void listen(std::thread& listeningThreadData);
     void listeningThreadLoopData();
 
+    static void closeInput(eckit::net::TCPSocket& socket);
+
     const eckit::net::TCPSocket& controlSocket() const override { return controlSocket_; }
 
     const eckit::net::TCPSocket& dataSocket() const override {
diff --git a/src/fdb5/remote/server/StoreHandler.cc b/src/fdb5/remote/server/StoreHandler.cc
index a616a8a..d566f32 100644
--- a/src/fdb5/remote/server/StoreHandler.cc
+++ b/src/fdb5/remote/server/StoreHandler.cc
@@ -32,6 +32,7 @@
 #include <iostream>
 #include <memory>
 #include <mutex>
+#include <sstream>
 #include <utility>
 
 using namespace eckit;
@@ -177,6 +178,11 @@ void StoreHandler::writeToParent(const uint32_t clientID, const uint32_t request
         LOG_DEBUG_LIB(LibFdb5) << "Reading: " << requestID << " dh size: " << dh->size() << std::endl;
 
         while ((dataRead = dh->read(writeBuffer, writeBuffer.size())) != 0) {
+            if (dataRead < 0) {
+                std::ostringstream ss;
+                ss << *dh;
+                throw ReadError(ss.str(), Here());
+            }
             write(Message::Blob, false, clientID, requestID, writeBuffer, dataRead);
         }
 
-- 
2.43.0


From 746c4f5f9980fd92048070912621ec82b35a48e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:58 +0000
Subject: [PATCH 37/48] fix: a catalogue server does not index what its client
 has not flushed

When a client lost its connection to the store before the flush, the catalogue
server indexed the locations it had received as soon as the client had gone,
although their data were not stored.
---
 src/fdb5/remote/server/CatalogueHandler.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fdb5/remote/server/CatalogueHandler.h b/src/fdb5/remote/server/CatalogueHandler.h
index 0958e77..f3a7503 100644
--- a/src/fdb5/remote/server/CatalogueHandler.h
+++ b/src/fdb5/remote/server/CatalogueHandler.h
@@ -29,7 +29,10 @@ struct CatalogueArchiver {
         dataConnection(dataConnection),
         catalogue(CatalogueWriterFactory::instance().build(dbKey, config)),
         locationsExpected(0),
-        locationsArchived(0) {}
+        locationsArchived(0) {
+        // What the client has not flushed may not be stored: it must not become visible because the client has gone
+        catalogue->discardUnflushed();
+    }
 
     bool controlConnection;
     bool dataConnection;
-- 
2.43.0


From 46e316c87da121f5622f5f3f9bb75c2adeed90c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:10 +0000
Subject: [PATCH 38/48] fix: a client whose connection is lost reports it, and
 neither waits nor ends

Iterators, flushes and requests made as the connection was lost waited for ever,
as did the destruction of the connection itself; an error writing data, or a
store destroyed after one, ended the process. A field that the store could not
write was waited for by flush.
---
 src/fdb5/api/RemoteFDB.cc                  | 10 ++++
 src/fdb5/api/RemoteFDB.h                   |  1 +
 src/fdb5/remote/Connection.h               |  3 ++
 src/fdb5/remote/client/ClientConnection.cc | 62 +++++++++++++++++-----
 src/fdb5/remote/client/ClientConnection.h  |  1 +
 src/fdb5/remote/client/RemoteStore.cc      | 17 +++++-
 src/fdb5/remote/client/RemoteStore.h       | 43 ++++++++++++++-
 7 files changed, 123 insertions(+), 14 deletions(-)

diff --git a/src/fdb5/api/RemoteFDB.cc b/src/fdb5/api/RemoteFDB.cc
index 48e312a..f0dff87 100644
--- a/src/fdb5/api/RemoteFDB.cc
+++ b/src/fdb5/api/RemoteFDB.cc
@@ -413,6 +413,16 @@ bool RemoteFDB::handle(remote::Message message, uint32_t requestID, Buffer&& pay
     }
 }
 
+void RemoteFDB::closeConnection() {
+    std::lock_guard lock(messageQueueMutex_);
+    for (auto& [id, queue] : messageQueues_) {
+        if (!queue->closed()) {
+            queue->interrupt(std::make_exception_ptr(
+                RemoteFDBException("Connection closed before the request was complete", controlEndpoint())));
+        }
+    }
+}
+
 static FDBBuilder<RemoteFDB> builder("remote");
 
 }  // namespace fdb5
diff --git a/src/fdb5/api/RemoteFDB.h b/src/fdb5/api/RemoteFDB.h
index 178a2cd..4325a3f 100644
--- a/src/fdb5/api/RemoteFDB.h
+++ b/src/fdb5/api/RemoteFDB.h
@@ -82,6 +82,7 @@ private:  // methods
     const eckit::Configuration& clientConfig() const override;
     bool handle(Message message, uint32_t requestID) override;
     bool handle(Message message, uint32_t requestID, eckit::Buffer&& payload) override;
+    void closeConnection() override;
 
 private:  // members
 
diff --git a/src/fdb5/remote/Connection.h b/src/fdb5/remote/Connection.h
index 727354f..21b5227 100644
--- a/src/fdb5/remote/Connection.h
+++ b/src/fdb5/remote/Connection.h
@@ -84,6 +84,9 @@ public:  // methods
 
     bool valid() const { return isValid_; }
 
+    /// Nothing can be sent or received any more
+    void invalidate() { isValid_ = false; }
+
 private:  // methods
 
     eckit::Buffer read(bool control, MessageHeader& hdr) const;
diff --git a/src/fdb5/remote/client/ClientConnection.cc b/src/fdb5/remote/client/ClientConnection.cc
index 55e7e4f..9bfc4ff 100644
--- a/src/fdb5/remote/client/ClientConnection.cc
+++ b/src/fdb5/remote/client/ClientConnection.cc
@@ -45,12 +45,12 @@ class DataWriteRequest {
 
 public:
 
-    DataWriteRequest() : client_(nullptr), msg_(Message::None), id_(0), data_(Buffer(0)) {}
+    DataWriteRequest() : client_(0), msg_(Message::None), id_(0), data_(Buffer(0)) {}
 
-    DataWriteRequest(Client* client, Message msg, uint32_t id, Buffer&& data) :
+    DataWriteRequest(uint32_t client, Message msg, uint32_t id, Buffer&& data) :
         client_(client), msg_(msg), id_(id), data_(std::move(data)) {}
 
-    Client* client_;
+    uint32_t client_;
     Message msg_;
     uint32_t id_;
     Buffer data_;
@@ -201,6 +201,10 @@ std::future<Buffer> ClientConnection::controlWrite(const Client& client, const M
     std::future<Buffer> f;
     {
         std::lock_guard lock(promisesMutex_);
+        if (!valid()) {  // nobody would fulfil the promise (see failPendingRequests)
+            throw RemoteFDBException("Connection to " + std::string(controlEndpoint_) + " is no longer valid",
+                                     controlEndpoint_);
+        }
         auto pp = promises_.emplace(requestID, std::promise<Buffer>{}).first;
         f = pp->second.get_future();
     }
@@ -210,7 +214,7 @@ std::future<Buffer> ClientConnection::controlWrite(const Client& client, const M
 }
 
 void ClientConnection::dataWrite(DataWriteRequest& request) const {
-    Connection::write(request.msg_, false, request.client_->clientId(), request.id_, request.data_.data(),
+    Connection::write(request.msg_, false, request.client_, request.id_, request.data_.data(),
                       request.data_.size());
 }
 
@@ -255,7 +259,7 @@ void ClientConnection::dataWrite(Client& client, remote::Message msg, uint32_t r
         offset += payload.length;
     }
 
-    dataWriteQueue_->emplace(&client, msg, requestID, std::move(buffer));
+    dataWriteQueue_->emplace(client.clientId(), msg, requestID, std::move(buffer));
 }
 
 void ClientConnection::dataWriteThreadLoop() {
@@ -271,15 +275,15 @@ void ClientConnection::dataWriteThreadLoop() {
             dataWrite(element);
         }
 
+        std::lock_guard lock(dataWriteMutex_);
         dataWriteQueue_.reset();
     }
     catch (...) {
+        // We are inside a thread: exceptions must not escape. They will be released when more data are written, and
+        // flush() fails.
         dataWriteQueue_->interrupt(std::current_exception());
-        throw;
+        handleConnectionError(std::current_exception());
     }
-
-    // We are inside an async, so don't need to worry about exceptions escaping.
-    // They will be released when flush() is called.
 }
 
 void ClientConnection::writeControlStartupMessage(const Configuration& config) {
@@ -350,6 +354,7 @@ SessionID ClientConnection::verifyServerStartupResponse() {
 
 void ClientConnection::failPendingRequests(const std::exception_ptr& eptr) {
     std::lock_guard lock(promisesMutex_);
+    invalidate();
     for (auto& [requestID, promise] : promises_) {
         promise.set_exception(eptr);
     }
@@ -372,12 +377,37 @@ void ClientConnection::handleConnectionError(const std::exception_ptr& eptr) {
         Log::error() << "error: unknown exception on connection " << controlEndpoint_ << std::endl;
     }
 
-    // nothing else will ever fulfil a promise once the listening thread has stopped
+    teardown();
+
+    // nothing else will ever fulfil a promise, or send what is queued for, once a listening thread has stopped
     std::ostringstream ss;
     ss << "Connection to " << controlEndpoint_ << " lost: " << reason;
-    failPendingRequests(std::make_exception_ptr(RemoteFDBException(ss.str(), controlEndpoint_)));
+    auto error = std::make_exception_ptr(RemoteFDBException(ss.str(), controlEndpoint_));
+    failPendingRequests(error);
+    {
+        std::lock_guard lock(dataWriteMutex_);
+        if (dataWriteQueue_) {
+            dataWriteQueue_->interrupt(error);
+        }
+    }
 
-    teardown();
+    // the other threads, and the server, must not wait for one another either
+    closeSockets();
+    closeConnection();
+}
+
+void ClientConnection::closeSockets() {
+    for (auto* socket : {&controlClient_, &dataClient_}) {
+        try {
+            if (socket->isConnected()) {
+                socket->closeInput();
+                socket->closeOutput();
+            }
+        }
+        catch (const std::exception& e) {
+            LOG_DEBUG_LIB(LibFdb5) << "Socket could not be closed: " << e.what() << std::endl;
+        }
+    }
 }
 
 void ClientConnection::listeningControlThreadLoop() {
@@ -398,6 +428,9 @@ void ClientConnection::listeningControlThreadLoop() {
             if (hdr.message == Message::Exit) {
                 LOG_DEBUG_LIB(LibFdb5) << "ClientConnection::listeningControlThreadLoop() -- Control thread stopping"
                                        << std::endl;
+                failPendingRequests(std::make_exception_ptr(RemoteFDBException(
+                    "Connection to " + std::string(controlEndpoint_) + " has been closed", controlEndpoint_)));
+                closeConnection();
                 return;
             }
             if (hdr.clientID()) {
@@ -459,6 +492,11 @@ void ClientConnection::listeningControlThreadLoop() {
                     }
                 }
 
+                // Over a single connection, an error may be received before the confirmation of the request it ends
+                if (!handled && single_ && hdr.message == Message::Received) {
+                    handled = true;
+                }
+
                 if (!handled) {
                     std::ostringstream ss;
                     if (hdr.message == Message::Error) {
diff --git a/src/fdb5/remote/client/ClientConnection.h b/src/fdb5/remote/client/ClientConnection.h
index 2c78205..f7012f3 100644
--- a/src/fdb5/remote/client/ClientConnection.h
+++ b/src/fdb5/remote/client/ClientConnection.h
@@ -95,6 +95,7 @@ private:  // methods
 
     void dataWriteThreadLoop();
     void closeConnection();
+    void closeSockets();
 
     const eckit::net::TCPSocket& controlSocket() const override { return controlClient_; }
 
diff --git a/src/fdb5/remote/client/RemoteStore.cc b/src/fdb5/remote/client/RemoteStore.cc
index 2d4df54..866ea07 100644
--- a/src/fdb5/remote/client/RemoteStore.cc
+++ b/src/fdb5/remote/client/RemoteStore.cc
@@ -253,7 +253,7 @@ RemoteStore::~RemoteStore() {
     // If we have launched a thread with an async and we manage to get here, this is
     // an error. n.b. if we don't do something, we will block in the destructor
     // of std::future.
-    if (!locations_.complete()) {
+    if (locations_.active()) {
         Log::error() << "Attempting to destruct RemoteStore with active archival" << std::endl;
         eckit::Main::instance().terminate();
     }
@@ -366,6 +366,8 @@ void RemoteStore::print(std::ostream& out) const {
 }
 
 void RemoteStore::closeConnection() {
+    locations_.interrupt(std::make_exception_ptr(eckit::Exception("Unexpected closure of store", Here())));
+
     std::lock_guard lock(messageMutex_);
     for (auto& kv : messageQueues_) {
         if (!kv.second->closed()) {
@@ -440,7 +442,11 @@ bool RemoteStore::handle(Message message, uint32_t requestID, eckit::Buffer&& pa
                 // Remove entry (shared_ptr --> message queue will be destroyed when it
                 // goes out of scope in the worker thread).
                 messageQueues_.erase(iter);
+                return true;
             }
+            // a field that could not be stored
+            std::string msg(static_cast<const char*>(payload.data()), payload.size());
+            locations_.interrupt(requestID, std::make_exception_ptr(RemoteFDBException(msg, controlEndpoint())));
             return true;
         }
         default:
@@ -471,6 +477,15 @@ eckit::DataHandle* RemoteStore::dataHandle(const FieldLocation& fieldLocation, c
     return new FDBRemoteDataHandle(id, this->id(), fieldLocation.length(), queue, controlEndpoint());
 }
 
+void RemoteStore::interruptRequest(uint32_t requestID, std::exception_ptr error) {
+    std::lock_guard lock(messageMutex_);
+    auto iter = messageQueues_.find(requestID);
+    if (iter != messageQueues_.end()) {
+        iter->second->interrupt(error);
+        messageQueues_.erase(iter);
+    }
+}
+
 RemoteStore& RemoteStore::get(const eckit::URI& uri) {
     static std::mutex storeMutex_;
     // we memoise one read store for each endpoint. Do not need to have one for each key
diff --git a/src/fdb5/remote/client/RemoteStore.h b/src/fdb5/remote/client/RemoteStore.h
index 44369bc..80c29f0 100644
--- a/src/fdb5/remote/client/RemoteStore.h
+++ b/src/fdb5/remote/client/RemoteStore.h
@@ -35,6 +35,7 @@
 #include <atomic>
 #include <cstddef>
 #include <cstdint>
+#include <exception>
 #include <functional>
 #include <future>
 #include <map>
@@ -65,6 +66,9 @@ public:
     void archive(uint32_t requestID,
                  std::function<void(const std::unique_ptr<const FieldLocation> fieldLocation)> catalogue_archive) {
         std::lock_guard<std::mutex> lock(locationMutex_);
+        if (error_) {
+            std::rethrow_exception(error_);
+        }
         locations_[requestID] = catalogue_archive;
         fieldsArchived_++;
         ASSERT(fieldsArchived_ - locationsReceived_ == locations_.size());
@@ -85,7 +89,7 @@ public:
         locationsReceived_++;
 
         ASSERT(fieldsArchived_ - locationsReceived_ == locations_.size());
-        if (archivalCompleted_.valid() && (fieldsArchived_ == locationsReceived_)) {
+        if (!error_ && archivalCompleted_.valid() && (fieldsArchived_ == locationsReceived_)) {
             promiseArchivalCompleted_.set_value(locationsReceived_);
         }
         return true;
@@ -95,6 +99,9 @@ public:
         std::lock_guard<std::mutex> lock(locationMutex_);
 
         ASSERT(fieldsArchived_ - locationsReceived_ == locations_.size());
+        if (error_) {
+            std::rethrow_exception(error_);
+        }
         if (fieldsArchived_ == locationsReceived_) {
             return true;
         }
@@ -104,6 +111,36 @@ public:
         return false;
     }
 
+    /// Locations are expected and may still be received
+    bool active() {
+        std::lock_guard<std::mutex> lock(locationMutex_);
+        return !error_ && !locations_.empty();
+    }
+
+    /// The locations that have not been received never will be: what waits for them, or will, ends with the error
+    void interrupt(std::exception_ptr error) {
+        std::lock_guard<std::mutex> lock(locationMutex_);
+        if (error_ || locations_.empty()) {
+            return;
+        }
+        error_ = error;
+        if (archivalCompleted_.valid()) {
+            promiseArchivalCompleted_.set_exception(error);
+        }
+    }
+
+    /// The same, if this request is among them
+    bool interrupt(uint32_t requestID, std::exception_ptr error) {
+        {
+            std::lock_guard<std::mutex> lock(locationMutex_);
+            if (locations_.find(requestID) == locations_.end()) {
+                return false;
+            }
+        }
+        interrupt(error);
+        return true;
+    }
+
     size_t wait() {
         archivalCompleted_.wait();
         return archivalCompleted_.get();
@@ -126,6 +163,7 @@ private:
     std::promise<size_t> promiseArchivalCompleted_;
     std::future<size_t> archivalCompleted_;
     std::atomic<bool> storeRequested_{false};
+    std::exception_ptr error_;
 };
 
 //----------------------------------------------------------------------------------------------------------------------
@@ -160,6 +198,9 @@ public:  // methods
     eckit::DataHandle* dataHandle(const FieldLocation& fieldLocation);
     eckit::DataHandle* dataHandle(const FieldLocation& fieldLocation, const Key& remapKey);
 
+    /// The data requested will not be received: reading them ends with the error
+    void interruptRequest(uint32_t requestID, std::exception_ptr error);
+
     bool canMoveTo(const Key& key, const Config& config, const eckit::URI& dest) const override { return false; }
     void moveTo(const Key& key, const Config& config, const eckit::URI& dest,
                 eckit::Queue<MoveElement>& queue) const override {
-- 
2.43.0


From 9046311abe7909595dd78004a30c9e63879c6d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:11 +0000
Subject: [PATCH 39/48] fix: reads that are queued can be abandoned, and their
 errors are reported where they are read

A handle destroyed before its request had been sent, or while another could not
be, ended the process.
---
 src/fdb5/remote/client/ReadLimiter.cc | 68 ++++++++++++++++++---------
 src/fdb5/remote/client/ReadLimiter.h  |  2 +-
 2 files changed, 46 insertions(+), 24 deletions(-)

diff --git a/src/fdb5/remote/client/ReadLimiter.cc b/src/fdb5/remote/client/ReadLimiter.cc
index d0f8b9e..27d9674 100644
--- a/src/fdb5/remote/client/ReadLimiter.cc
+++ b/src/fdb5/remote/client/ReadLimiter.cc
@@ -12,6 +12,7 @@
 
 #include "fdb5/remote/client/RemoteStore.h"
 
+#include <exception>
 #include <mutex>
 #include <sstream>
 
@@ -65,24 +66,42 @@ void ReadLimiter::add(RemoteStore* client, uint32_t id, const FieldLocation& fie
 }
 
 bool ReadLimiter::tryNextRequest() {
-    std::lock_guard<std::mutex> lock(mutex_);
-    if (requests_.empty()) {
-        return false;
-    }
 
-    const auto& request = requests_.front();
+    RemoteStore* client = nullptr;
+    uint32_t id = 0;
+    std::exception_ptr error;
+    {
+        std::lock_guard<std::mutex> lock(mutex_);
+        if (requests_.empty()) {
+            return false;
+        }
 
-    if (memoryUsed_ + request.resultSize > memoryLimit_) {
-        return false;
-    }
+        const auto& request = requests_.front();
+
+        if (memoryUsed_ + request.resultSize > memoryLimit_) {
+            return false;
+        }
+
+        client = request.client;
+        id = request.id;
 
-    activeRequests_[request.client->id()].insert(request.id);
-    resultSizes_[{request.client->id(), request.id}] = request.resultSize;
-    memoryUsed_ += request.resultSize;
+        try {
+            sendRequest(request);
+            activeRequests_[request.client->id()].insert(request.id);
+            resultSizes_[{request.client->id(), request.id}] = request.resultSize;
+            memoryUsed_ += request.resultSize;
+        }
+        catch (...) {
+            error = std::current_exception();
+        }
 
-    sendRequest(request);
+        requests_.pop_front();
+    }
 
-    requests_.pop_front();
+    // It may not be the request of the caller. Who reads the data needs to know.
+    if (error) {
+        client->interruptRequest(id, error);
+    }
     return true;
 }
 
@@ -91,19 +110,22 @@ void ReadLimiter::finishRequest(uint32_t clientID, uint32_t requestID) {
         std::lock_guard<std::mutex> lock(mutex_);
 
         auto it = activeRequests_.find(clientID);
-        if (it == activeRequests_.end()) {
-            return;
+        if (it != activeRequests_.end() && it->second.erase(requestID) != 0) {
+            memoryUsed_ -= resultSizes_[{clientID, requestID}];
+            resultSizes_.erase({clientID, requestID});
+        }
+        else {
+            // Not sent yet: it is abandoned before there has been space for its data
+            for (auto it2 = requests_.begin(); it2 != requests_.end(); ++it2) {
+                if (it2->client->id() == clientID && it2->id == requestID) {
+                    requests_.erase(it2);
+                    break;
+                }
+            }
         }
-
-        auto it2 = it->second.find(requestID);
-        ASSERT(it2 != it->second.end());
-
-        memoryUsed_ -= resultSizes_[{clientID, requestID}];
-        it->second.erase(it2);
-        resultSizes_.erase({clientID, requestID});
     }
 
-    tryNextRequest();
+    while (tryNextRequest()) {}
 }
 
 /// @note: Only called when a RemoteStore is destroyed, which is currently on exit.
diff --git a/src/fdb5/remote/client/ReadLimiter.h b/src/fdb5/remote/client/ReadLimiter.h
index bcacc40..8cdff9a 100644
--- a/src/fdb5/remote/client/ReadLimiter.h
+++ b/src/fdb5/remote/client/ReadLimiter.h
@@ -26,7 +26,7 @@ namespace fdb5::remote {
 //----------------------------------------------------------------------------------------------------------------------
 
 struct RequestInfo {
-    const RemoteStore* client;  // Non-owning
+    RemoteStore* client;  // Non-owning
     uint32_t id;                // note request ids are only unique per connection. Client id is unique within a process
     eckit::Buffer requestBuffer;  // Payload to send to the server
     size_t requestSize;
-- 
2.43.0


From a4d6bf17246cf8ce1398ec3e07102886772c89c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:35 +0000
Subject: [PATCH 40/48] fix: a field archived as the connection to the store
 was lost is not waited for

---
 src/fdb5/remote/client/RemoteStore.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fdb5/remote/client/RemoteStore.h b/src/fdb5/remote/client/RemoteStore.h
index 80c29f0..46b7578 100644
--- a/src/fdb5/remote/client/RemoteStore.h
+++ b/src/fdb5/remote/client/RemoteStore.h
@@ -117,14 +117,14 @@ public:
         return !error_ && !locations_.empty();
     }
 
-    /// The locations that have not been received never will be: what waits for them, or will, ends with the error
+    /// No more locations will be received: what waits for them, or will, ends with the error
     void interrupt(std::exception_ptr error) {
         std::lock_guard<std::mutex> lock(locationMutex_);
-        if (error_ || locations_.empty()) {
+        if (error_) {
             return;
         }
         error_ = error;
-        if (archivalCompleted_.valid()) {
+        if (archivalCompleted_.valid() && !locations_.empty()) {
             promiseArchivalCompleted_.set_exception(error);
         }
     }
-- 
2.43.0


From 12ea158f0c27e4e9ca5095d15e5a026946fb3e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:49 +0000
Subject: [PATCH 41/48] fix: a remote listing that is abandoned does not hold
 up, or end, the other operations of the process

The messages of an iterator that had been destroyed were waited for by nobody,
and once its queue was full the thread that receives messages stopped. Those for
an FDB object that had been destroyed ended the connection of all others.
---
 src/fdb5/api/RemoteFDB.cc                  | 31 +++++++++++++++-------
 src/fdb5/remote/client/ClientConnection.cc | 28 +++++++++----------
 2 files changed, 34 insertions(+), 25 deletions(-)

diff --git a/src/fdb5/api/RemoteFDB.cc b/src/fdb5/api/RemoteFDB.cc
index f0dff87..c181141 100644
--- a/src/fdb5/api/RemoteFDB.cc
+++ b/src/fdb5/api/RemoteFDB.cc
@@ -298,16 +298,24 @@ auto RemoteFDB::forwardApiCall(const HelperClass& helper, const FDBToolRequest&
         // n.b. Don't worry about catching exceptions in lambda, as
         // this is handled in the AsyncIterator.
         new AsyncIterator(shared_from_this(), [messageQueue, remoteFDB](Queue<ValueType>& queue) {
-            Buffer msg{0};
-            while (true) {
-                if (messageQueue->pop(msg) == -1) {
-                    break;
-                }
-                else {
-                    MemoryStream s(msg);
-                    queue.emplace(HelperClass::valueFromStream(s, remoteFDB));
+            try {
+                Buffer msg{0};
+                while (true) {
+                    if (messageQueue->pop(msg) == -1) {
+                        break;
+                    }
+                    else {
+                        MemoryStream s(msg);
+                        queue.emplace(HelperClass::valueFromStream(s, remoteFDB));
+                    }
                 }
             }
+            catch (...) {
+                // Nothing takes the messages any more, e.g. as the iterator has been destroyed: those that are still to
+                // come must not be waited for, they are discarded (see handle)
+                messageQueue->interrupt(std::make_exception_ptr(AsyncIterationCancellation()));
+                throw;
+            }
             // messageQueue goes out of scope --> destructed
         }));
 }
@@ -386,7 +394,12 @@ bool RemoteFDB::handle(remote::Message message, uint32_t requestID, Buffer&& pay
                 }
                 queue = iter->second;
             }
-            queue->emplace(std::move(payload));
+            try {
+                queue->emplace(std::move(payload));
+            }
+            catch (const AsyncIterationCancellation&) {
+                // Nobody is interested in the rest
+            }
             return true;
         }
 
diff --git a/src/fdb5/remote/client/ClientConnection.cc b/src/fdb5/remote/client/ClientConnection.cc
index 9bfc4ff..2042378 100644
--- a/src/fdb5/remote/client/ClientConnection.cc
+++ b/src/fdb5/remote/client/ClientConnection.cc
@@ -473,14 +473,12 @@ void ClientConnection::listeningControlThreadLoop() {
 
                     auto it = clients_.find(hdr.clientID());
                     if (it == clients_.end()) {
-                        std::ostringstream ss;
-                        ss << "ERROR: CONTROL connection=" << controlEndpoint_
-                           << " received [clientID=" << hdr.clientID() << ",requestID=" << hdr.requestID
-                           << ",message=" << hdr.message << ",payload=" << hdr.payloadSize << "]" << std::endl;
-                        ss << "ClientID (" << hdr.clientID() << ") not found. ABORTING";
-                        Log::status() << ss.str() << std::endl;
-                        Log::error() << "Retrieving... " << ss.str() << std::endl;
-                        throw SeriousBug(ss.str(), Here());
+                        // The client has gone in the meantime: what it asked for is of no interest to the others
+                        LOG_DEBUG_LIB(LibFdb5) << "CONTROL connection=" << controlEndpoint_
+                                               << " received [clientID=" << hdr.clientID()
+                                               << ",requestID=" << hdr.requestID << ",message=" << hdr.message
+                                               << "] for a client that has been removed" << std::endl;
+                        continue;
                     }
                     Client* client = it->second;
 
@@ -560,14 +558,12 @@ void ClientConnection::listeningDataThreadLoop() {
 
                 auto it = clients_.find(hdr.clientID());
                 if (it == clients_.end()) {
-                    std::ostringstream ss;
-                    ss << "ERROR: DATA connection=" << dataEndpoint_ << " received [clientID=" << hdr.clientID()
-                       << ",requestID=" << hdr.requestID << ",message=" << hdr.message << ",payload=" << hdr.payloadSize
-                       << "]" << std::endl;
-                    ss << "ClientID (" << hdr.clientID() << ") not found. ABORTING";
-                    Log::status() << ss.str() << std::endl;
-                    Log::error() << "Retrieving... " << ss.str() << std::endl;
-                    throw SeriousBug(ss.str(), Here());
+                    // The client has gone in the meantime: what it asked for is of no interest to the others
+                    LOG_DEBUG_LIB(LibFdb5) << "DATA connection=" << dataEndpoint_
+                                           << " received [clientID=" << hdr.clientID() << ",requestID=" << hdr.requestID
+                                           << ",message=" << hdr.message << "] for a client that has been removed"
+                                           << std::endl;
+                    continue;
                 }
                 Client* client = it->second;
 
-- 
2.43.0


From a7389c1f1dedd9a56b99675c7d13b5ce0d4744b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:04 +0000
Subject: [PATCH 42/48] fix: list all entries of an index, whatever byte their
 keys begin with

---
 src/fdb5/toc/BTreeIndex.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fdb5/toc/BTreeIndex.cc b/src/fdb5/toc/BTreeIndex.cc
index 660bb84..a6c4b80 100644
--- a/src/fdb5/toc/BTreeIndex.cc
+++ b/src/fdb5/toc/BTreeIndex.cc
@@ -121,7 +121,8 @@ public:
 template <int KEYSIZE, int RECSIZE, typename PAYLOAD>
 void TBTreeIndex<KEYSIZE, RECSIZE, PAYLOAD>::visit(BTreeIndexVisitor& visitor) const {
     TBTreeIndexVisitor<KEYSIZE, RECSIZE, PAYLOAD> v(visitor);
-    btree_.range("", "\255", v);
+    // Up to the largest key there can be, so that keys which begin with any byte are visited
+    btree_.range(BTreeKey(""), BTreeKey(std::string(KEYSIZE, '\377')), v);
 }
 
 template <int KEYSIZE, int RECSIZE, typename PAYLOAD>
-- 
2.43.0


From 8fc3208a6bfd4a115b7ff71381aa2aaf15fe9214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:04 +0000
Subject: [PATCH 43/48] fix: keep the offset of a remote field in its full URI

---
 src/fdb5/remote/RemoteFieldLocation.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fdb5/remote/RemoteFieldLocation.cc b/src/fdb5/remote/RemoteFieldLocation.cc
index b6c9d8e..52af78c 100644
--- a/src/fdb5/remote/RemoteFieldLocation.cc
+++ b/src/fdb5/remote/RemoteFieldLocation.cc
@@ -132,7 +132,7 @@ static FieldLocationBuilder<RemoteFieldLocation> builder(RemoteFieldLocation::ty
 class FdbURIManager : public eckit::URIManager {
     bool authority() override { return true; }
     bool query() override { return true; }
-    bool fragment() override { return false; }
+    bool fragment() override { return true; }
 
     bool exists(const eckit::URI& f) override { return f.path().exists(); }
 
-- 
2.43.0


From 331846f279346b6df8a009ca772536d95bd06ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:04 +0000
Subject: [PATCH 44/48] fix: mask the tocs of mounted databases one by one,
 rather than all together

---
 src/fdb5/toc/TocHandler.cc | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/fdb5/toc/TocHandler.cc b/src/fdb5/toc/TocHandler.cc
index bdaf129..cfa7486 100644
--- a/src/fdb5/toc/TocHandler.cc
+++ b/src/fdb5/toc/TocHandler.cc
@@ -646,6 +646,13 @@ void TocHandler::close() const {
     }
 }
 
+// Sub-tocs are masked by their (unique) name, irrespective of where they are (the DB may have been moved). The tocs of
+// mounted DBs (fdb-overlay) all have the same name, and are masked by their path.
+static LocalPathName subTocMask(const LocalPathName& path) {
+    LocalPathName name = path.baseName();
+    return (path.path()[0] == '/' && name == "toc") ? path : name;
+}
+
 void TocHandler::allMaskableEntries(Offset startOffset, Offset endOffset,
                                     std::set<std::pair<LocalPathName, Offset>>& maskedEntries) const {
 
@@ -670,7 +677,7 @@ void TocHandler::allMaskableEntries(Offset startOffset, Offset endOffset,
         switch (r->header_.tag_) {
             case TocRecord::TOC_SUB_TOC: {
                 s >> path;
-                maskedEntries.emplace(std::pair<PathName, Offset>(path.baseName(), 0));
+                maskedEntries.emplace(std::pair<PathName, Offset>(subTocMask(path), 0));
                 break;
             }
 
@@ -718,7 +725,7 @@ eckit::LocalPathName TocHandler::parseSubTocRecord(const TocRecord& r, bool read
 
     // If this subtoc has a masking entry, then skip it, and go on to the next entry.
     // Unless readMasked is true, in which case walk it if it exists.
-    std::pair<eckit::LocalPathName, size_t> key(absPath.baseName(), 0);
+    std::pair<eckit::LocalPathName, size_t> key(subTocMask(path), 0);
     if (maskedEntries_.find(key) != maskedEntries_.end()) {
         if (!readMasked) {
             LOG_DEBUG_LIB(LibFdb5) << "SubToc ignored by mask: " << path << std::endl;
@@ -1004,8 +1011,8 @@ void TocHandler::populateMaskedEntriesList() const {
                     // readNextInternal --> use directory_ not currentDirectory()
                     // ASSERT(path.size() > 0);
                     // eckit::PathName absPath = (path[0] == '/') ? findRealPath(path) : (directory_ / path);
-                    eckit::PathName pathName = path;
-                    maskedEntries_.emplace(std::pair<PathName, Offset>(pathName.baseName(), offset));
+                    LocalPathName pathName{path};
+                    maskedEntries_.emplace(std::pair<PathName, Offset>(subTocMask(pathName), offset));
                 }
                 break;
             }
@@ -1729,16 +1736,10 @@ void TocHandler::enumerateMasked(std::set<std::pair<eckit::URI, Offset>>& metada
     for (const auto& entry : maskedEntries_) {
 
         ASSERT(entry.first.path().size() > 0);
-        eckit::LocalPathName absPath;
         if (entry.first.path()[0] == '/') {
-            absPath = entry.first;
-            if (!absPath.exists()) {
-                absPath = currentDirectory() / entry.first.baseName();
-            }
-        }
-        else {
-            absPath = currentDirectory() / entry.first;
+            continue;  // a mounted DB, which does not belong to this one
         }
+        eckit::LocalPathName absPath = currentDirectory() / entry.first;
 
         if (absPath.exists()) {
             eckit::URI uri("toc", absPath);
-- 
2.43.0


From 30fffa2b372f40716e07b3c90a69213a57ff5f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:04 +0000
Subject: [PATCH 45/48] fix: a mounted database that has been removed made a
 toc refer to itself for ever

---
 src/fdb5/toc/TocHandler.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fdb5/toc/TocHandler.cc b/src/fdb5/toc/TocHandler.cc
index cfa7486..6e9efc6 100644
--- a/src/fdb5/toc/TocHandler.cc
+++ b/src/fdb5/toc/TocHandler.cc
@@ -717,6 +717,10 @@ eckit::LocalPathName TocHandler::parseSubTocRecord(const TocRecord& r, bool read
         absPath = findRealPath(path);
         if (!absPath.exists()) {
             absPath = currentDirectory() / path.baseName();
+            if (absPath == currentTocPath()) {
+                Log::warning() << "Mounted DB does not exist: " << path << std::endl;
+                return "";
+            }
         }
     }
     else {
-- 
2.43.0


From 8821fa2a4eecfbee5f7047e2b5a0ea1c10720a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:04 +0000
Subject: [PATCH 46/48] fix: allow a mounted database to have sub-tocs when
 enumerating sub-tocs

---
 src/fdb5/toc/TocHandler.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fdb5/toc/TocHandler.cc b/src/fdb5/toc/TocHandler.cc
index 6e9efc6..de70bc1 100644
--- a/src/fdb5/toc/TocHandler.cc
+++ b/src/fdb5/toc/TocHandler.cc
@@ -467,7 +467,8 @@ bool TocHandler::readNext(TocRecord& r, bool walkSubTocs, bool hideSubTocEntries
                 return true;
             }
             else {
-                ASSERT(r.header_.tag_ != TocRecord::TOC_SUB_TOC);
+                // n.b. a mounted DB may have sub-tocs (or mounted DBs) of its own
+                ASSERT(!hideSubTocEntries || r.header_.tag_ != TocRecord::TOC_SUB_TOC);
                 return true;
             }
         }
-- 
2.43.0


From cbbb40c50e121a27d91446268c2e2ddb0255b054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:04 +0000
Subject: [PATCH 47/48] fix: a wipe does not remove the toc of a mounted
 database

---
 src/fdb5/toc/TocCatalogue.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fdb5/toc/TocCatalogue.cc b/src/fdb5/toc/TocCatalogue.cc
index 5097f40..c631912 100644
--- a/src/fdb5/toc/TocCatalogue.cc
+++ b/src/fdb5/toc/TocCatalogue.cc
@@ -235,7 +235,9 @@ void TocCatalogue::finaliseWipeState(CatalogueWipeState& wipeState) const {
     std::set<eckit::URI> controlURIs;
     catalogueURIs.emplace("file", tocPath().path());
     for (const auto& sub : subTocPaths()) {
-        catalogueURIs.emplace("file", sub);
+        if (sub.dirName().sameAs(basePath())) {  // as opposed to the toc of a mounted DB
+            catalogueURIs.emplace("file", sub);
+        }
     }
 
     // schema
-- 
2.43.0


From 033c7b4f896398f6c13b6737b70d0947a5e9b352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:04 +0000
Subject: [PATCH 48/48] fix: let fdb-reconsolidate-toc create indexes, and keep
 the latest version of a field

---
 src/fdb5/toc/TocCatalogueWriter.cc | 26 +++++++++++++++++++++++---
 src/fdb5/toc/TocHandler.cc         |  2 ++
 2 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/fdb5/toc/TocCatalogueWriter.cc b/src/fdb5/toc/TocCatalogueWriter.cc
index 7de0568..b09515c 100644
--- a/src/fdb5/toc/TocCatalogueWriter.cc
+++ b/src/fdb5/toc/TocCatalogueWriter.cc
@@ -220,6 +220,12 @@ void TocCatalogueWriter::reconsolidateIndexesAndTocs() {
             /// @todo Do a sneaky schema.expand() here, prepopulated with the current DB/index/Rule,
             //       to extract the full key, including optional values.
             const TocFieldLocation& location(static_cast<const TocFieldLocation&>(field.location()));
+            const Key& idxKey = currentIndex_->key();
+            if (writer_.current_.null() || writer_.currentIndexKey_ != idxKey) {
+                if (!writer_.selectIndex(idxKey)) {
+                    writer_.createIndex(idxKey, datumKey.size());
+                }
+            }
             writer_.index(datumKey, location.uri(), location.offset(), location.length());
         }
 
@@ -233,13 +239,25 @@ void TocCatalogueWriter::reconsolidateIndexesAndTocs() {
     std::vector<Index> readIndexes = loadIndexes(false, &subtocs, &indexInSubtoc);
     size_t maskable_indexes = 0;
 
+    // The fields of mounted DBs (fdb-overlay) have other keys, and cannot be indexed as if they belonged to this one
+
+    for (const std::string& subtoc_path : subtocs) {
+        if (!eckit::PathName(subtoc_path).dirName().sameAs(directory_)) {
+            std::ostringstream ss;
+            ss << "Cannot reconsolidate DB " << *this << ", which has " << subtoc_path << " mounted";
+            throw UserError(ss.str(), Here());
+        }
+    }
+
     ConsolidateIndexVisitor visitor(*this);
+    visitor.visitDatabase(*this);
 
     ASSERT(readIndexes.size() == indexInSubtoc.size());
 
-    for (size_t i = 0; i < readIndexes.size(); i++) {
+    // The most recent index comes first. Its fields take precedence, and so have to be indexed last.
+
+    for (size_t i = readIndexes.size(); i-- > 0;) {
         Index& idx(readIndexes[i]);
-        selectIndex(idx.key());
         idx.entries(visitor);
 
         Log::info() << "Visiting index: " << idx.location().uri() << std::endl;
@@ -278,7 +296,9 @@ void TocCatalogueWriter::reconsolidateIndexesAndTocs() {
 
     // And write all the TOC records in one go!
 
-    appendBlock(buf, combinedSize);
+    if (combinedSize > 0) {
+        appendBlock(buf, combinedSize);
+    }
 }
 
 const Index& TocCatalogueWriter::currentIndex() {
diff --git a/src/fdb5/toc/TocHandler.cc b/src/fdb5/toc/TocHandler.cc
index de70bc1..05eea70 100644
--- a/src/fdb5/toc/TocHandler.cc
+++ b/src/fdb5/toc/TocHandler.cc
@@ -1071,6 +1071,8 @@ void TocHandler::writeInitRecord(const Key& key) {
 
     ASSERT(fd_ == -1);
 
+    cachedToc_.reset();  // n.b. the key may have been read from it
+
     int iomode = O_CREAT | O_RDWR;
     SYSCALL2(fd_ = ::open(tocPath_.localPath(), iomode, mode_t(0777)), tocPath_);
 
-- 
2.43.0

