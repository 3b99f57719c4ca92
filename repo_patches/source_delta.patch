From 936c055b0c13a54b5f13bf0b3e154426ee6d3341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:15 +0000
Subject: [PATCH 01/48] fix: Fiver::commit_ publishes also without assertions,
 and deletes the prepared file only once published

---
 src/fiver.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fiver.cc b/src/fiver.cc
index 15f1b06..5966a54 100644
--- a/src/fiver.cc
+++ b/src/fiver.cc
@@ -716,8 +716,10 @@ void Fiver::commit_() {
       std::string ready_name = working()->make_name(name() + "." + recipe());
       name_ = "fiver";
       std::string final_name = working()->make_name(name() + "." + recipe());
-      assert(link(ready_name.c_str(), final_name.c_str()) == 0);
-      std::remove(ready_name.c_str());
+      if (link(ready_name.c_str(), final_name.c_str()) == 0)
+        std::remove(ready_name.c_str());
+      else // only an empty transaction leaves nothing to publish
+        assert(access(ready_name.c_str(), F_OK) != 0);
     } else {
       name_ = "fiver";
     }
-- 
2.43.0


From 870fd70c5be3e6490591921654e794bd0f16d8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:15 +0000
Subject: [PATCH 02/48] fix: SimpleTxtIO rolls its files back also when
 assertions are compiled out

---
 src/simple_txt_io.cc | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/simple_txt_io.cc b/src/simple_txt_io.cc
index 2eefaa1..70653e9 100644
--- a/src/simple_txt_io.cc
+++ b/src/simple_txt_io.cc
@@ -41,6 +41,12 @@ void unlock(const std::string &nameof_contents) {
   std::remove(nameof_lock.c_str());
 }
 
+void truncate_file(const std::string &filename, addr length) {
+  bool truncated = (truncate(filename.c_str(), length) == 0);
+  assert(truncated);
+  (void)truncated;
+}
+
 void restore(const std::string &nameof_contents,
              const std::string &nameof_chunk_map, addr chunk_size,
              std::shared_ptr<Compressor> compressor) {
@@ -51,12 +57,11 @@ void restore(const std::string &nameof_contents,
   if (last_chunk == nullptr)
     return;
   if (chunk_map_limit == 0) {
-    assert(truncate(nameof_contents.c_str(), 0) == 0);
-    assert(truncate(nameof_chunk_map.c_str(), 0) == 0);
+    truncate_file(nameof_contents, 0);
+    truncate_file(nameof_chunk_map, 0);
     return;
   }
-  assert(truncate(nameof_chunk_map.c_str(),
-                  chunk_map_limit * sizeof(std::streamoff)) == 0);
+  truncate_file(nameof_chunk_map, chunk_map_limit * sizeof(std::streamoff));
   std::fstream mapf(nameof_chunk_map,
                     std::ios::binary | std::ios::in | std::ios::out);
   assert(!mapf.fail());
@@ -73,7 +78,7 @@ void restore(const std::string &nameof_contents,
       std::unique_ptr<char[]>(new char[buffer_size]);
   std::streamsize amount = compressor->crush(last_chunk.get(), last_chunk_end,
                                              buffer.get(), buffer_size);
-  assert(truncate(nameof_contents.c_str(), where + amount) == 0);
+  truncate_file(nameof_contents, where + amount);
   std::fstream contents(nameof_contents,
                         std::ios::binary | std::ios::in | std::ios::out);
   assert(!contents.fail());
-- 
2.43.0


From b603eb42b32018c43dcfa6da6e988ff19c6f467e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:15 +0000
Subject: [PATCH 03/48] fix: Stats::make sets the tokenizer also when
 assertions are compiled out

---
 src/stats.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/stats.cc b/src/stats.cc
index de821a1..52f5e38 100644
--- a/src/stats.cc
+++ b/src/stats.cc
@@ -77,8 +77,10 @@ std::shared_ptr<Stats> Stats::make(const std::string &name,
       ((stats->stemmer_ = warren->stemmer()) == nullptr) &&
       ((stats->stemmer_ = Stemmer::make("", "", error)) == nullptr))
     return nullptr;
-  if (stats->tokenizer_ == nullptr)
-    assert((stats->tokenizer_ = warren->tokenizer()) != nullptr);
+  if (stats->tokenizer_ == nullptr) {
+    stats->tokenizer_ = warren->tokenizer();
+    assert(stats->tokenizer_ != nullptr);
+  }
   stats->name_ = name;
   return stats;
 }
-- 
2.43.0


From b7957aff81d34afabf16c48d9c333d1565a338ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:59 +0000
Subject: [PATCH 04/48] fix: write_dna reports failed writes and renames

---
 src/dna.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/dna.cc b/src/dna.cc
index cf3e888..328b2eb 100644
--- a/src/dna.cc
+++ b/src/dna.cc
@@ -46,7 +46,16 @@ bool write_dna(std::shared_ptr<Working> working, const std::string &dna,
   out << HEADER << "\n";
   out << dna;
   out.close();
-  std::rename(temp_filename.c_str(), dna_filename.c_str());
+  if (out.fail()) {
+    safe_error(error) = "Can't write configuration to: " + temp_filename;
+    std::remove(temp_filename.c_str());
+    return false;
+  }
+  if (std::rename(temp_filename.c_str(), dna_filename.c_str()) != 0) {
+    safe_error(error) = "Can't write configuration to: " + dna_filename;
+    std::remove(temp_filename.c_str());
+    return false;
+  }
   return true;
 }
 
-- 
2.43.0


From 5f3953ae591792f0907eaa0c7c2e6ed7883eecfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:59 +0000
Subject: [PATCH 05/48] fix: fastid reports a failed write of its file

---
 src/fastid_txt.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fastid_txt.cc b/src/fastid_txt.cc
index 81fbdad..4bfbe80 100644
--- a/src/fastid_txt.cc
+++ b/src/fastid_txt.cc
@@ -235,6 +235,11 @@ bool fastid(std::shared_ptr<Warren> warren, std::string *error) {
     return false;
   if (!compressed_write(&out, text_buffer.get(), n, text_compressor, error))
     return false;
+  out.close();
+  if (out.fail()) {
+    safe_error(error) = "Fastid write failure";
+    return false;
+  }
   {
     std::string fastid = "fastid";
     std::string yes = "yes";
-- 
2.43.0


From b0ab89235f98d61a411b3eff149dc23a58657759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:59 +0000
Subject: [PATCH 06/48] fix: Fiver reports failed writes when pickling and
 writing Hazel shards

---
 src/fiver.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/fiver.cc b/src/fiver.cc
index 5966a54..aa69b29 100644
--- a/src/fiver.cc
+++ b/src/fiver.cc
@@ -812,6 +812,10 @@ bool Fiver::pickle(const std::string &filename, std::string *error) {
   for (auto &posting : *index_)
     posting.second->write(&jar);
   jar.close();
+  if (jar.fail()) {
+    safe_error(error) = "Fiver failed to pickle into: " + filename;
+    return false;
+  }
   return true;
 }
 
@@ -1261,6 +1265,10 @@ bool Fiver::hazel(const std::string &filename, std::string *error,
     return false;
   }
   out.close();
+  if (out.fail()) {
+    safe_error(error) = "Fiver failed to write Hazel shard: " + filename;
+    return false;
+  }
   return true;
 }
 
-- 
2.43.0


From b3beec6e35b9fead8db9c43bf7ea7f287fad5b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:59 +0000
Subject: [PATCH 07/48] fix: tf_idf_annotations reports a failed write of its
 annotations

---
 src/ranking.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ranking.cc b/src/ranking.cc
index 4f49cb1..ad39c74 100644
--- a/src/ranking.cc
+++ b/src/ranking.cc
@@ -1076,6 +1076,12 @@ bool tf_idf_annotations(std::shared_ptr<Warren> warren, std::string *error,
     }
   }
   anf.close();
+  if (anf.fail()) {
+    warren->abort();
+    safe_error(error) =
+        "Cannot write file for tf-idf annotations: " + working_filename;
+    return false;
+  }
   if (!warren->annotator()->annotate(working_filename, error)) {
     warren->abort();
     return false;
-- 
2.43.0


From e5de88127e19648418f6db7a0c7a3c65f863072c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:59 +0000
Subject: [PATCH 08/48] fix: SimpleAnnotator reports failed writes of merged
 and temporary files, and failed recovery

---
 src/simple_annotator.cc | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/simple_annotator.cc b/src/simple_annotator.cc
index 95b4cdb..915c777 100644
--- a/src/simple_annotator.cc
+++ b/src/simple_annotator.cc
@@ -2,6 +2,8 @@
 
 #include <algorithm>
 #include <cassert>
+#include <cerrno>
+#include <cstdio>
 #include <fstream>
 #include <memory>
 #include <string>
@@ -95,8 +97,14 @@ bool SimpleAnnotator::recover(const std::string &recipe, bool commit,
   std::string new_pst_filename = pst_filename_ + std::string(".new");
   std::string lock_filename = idx_filename_ + std::string(".lock");
   if (commit) {
-    std::rename(new_idx_filename.c_str(), idx_filename_.c_str());
-    std::rename(new_pst_filename.c_str(), pst_filename_.c_str());
+    // Either rename may already have happened before the interruption.
+    if ((std::rename(new_idx_filename.c_str(), idx_filename_.c_str()) != 0 &&
+         errno != ENOENT) ||
+        (std::rename(new_pst_filename.c_str(), pst_filename_.c_str()) != 0 &&
+         errno != ENOENT)) {
+      safe_error(error) = "SimpleAnnotator can't recover: " + idx_filename_;
+      return false;
+    }
   } else {
     std::remove(new_pst_filename.c_str());
     std::remove(new_idx_filename.c_str());
@@ -198,6 +206,16 @@ bool merge_updates(const std::vector<std::string> &posting_filenames,
       return false;
     }
   }
+  pst.close();
+  if (pst.fail()) {
+    safe_error(error) = "SimpleAnnotator can't write to: " + pst_filename;
+    return false;
+  }
+  idx.close();
+  if (idx.fail()) {
+    safe_error(error) = "SimpleAnnotator can't write to: " + idx_filename;
+    return false;
+  }
   return true;
 }
 
@@ -226,6 +244,9 @@ void SimpleAnnotator::maybe_flush_additions(bool force) {
             posting_factory->posting_from_annotations(&it, added->end());
         posting->write(&addf);
       }
+      addf.close();
+      if (addf.fail())
+        (*cannot_create_temp_files) = true;
     };
     std::string add_filename = working_->make_temp("ann");
     added_files_.push_back(add_filename);
-- 
2.43.0


From e4bf61d489dce9e5d98f75807e754e8e28f81321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:59 +0000
Subject: [PATCH 09/48] fix: SimpleTxtIO does not vote ready after a failed
 write

---
 src/simple_txt_io.cc | 19 +++++++++++++++++++
 src/simple_txt_io.h  |  2 ++
 2 files changed, 21 insertions(+)

diff --git a/src/simple_txt_io.cc b/src/simple_txt_io.cc
index 70653e9..4e695e1 100644
--- a/src/simple_txt_io.cc
+++ b/src/simple_txt_io.cc
@@ -273,6 +273,9 @@ void SimpleTxtIO::sync_last_chunk() {
   assert(!mapf.fail());
   mapf.write(reinterpret_cast<char *>(&where), sizeof(where));
   assert(!mapf.fail());
+  mapf.close();
+  if (mapf.fail() || contents_.fail())
+    failed_ = true;
   last_chunk_synced_ = true;
 }
 
@@ -295,6 +298,9 @@ void SimpleTxtIO::append_full_chunk(char *text) {
   assert(!mapf.fail());
   mapf.write(reinterpret_cast<char *>(&where), sizeof(where));
   assert(!mapf.fail());
+  mapf.close();
+  if (mapf.fail() || contents_.fail())
+    failed_ = true;
 }
 
 void SimpleTxtIO::start_new_chunk(char *text, addr length) {
@@ -321,6 +327,9 @@ void SimpleTxtIO::start_new_chunk(char *text, addr length) {
   assert(!mapf.fail());
   mapf.write(reinterpret_cast<char *>(&where), sizeof(where));
   assert(!mapf.fail());
+  mapf.close();
+  if (mapf.fail() || contents_.fail())
+    failed_ = true;
   last_chunk_synced_ = true;
 }
 
@@ -461,6 +470,11 @@ bool SimpleTxtIO::transaction_(std::string *error) {
     return false;
   }
   temp.close();
+  if (temp.fail()) {
+    std::remove(nameof_lock.c_str());
+    safe_error(error) = "SimpleTxtIO can't record transaction info";
+    return false;
+  }
   std::string nameof_limits = nameof_contents_ + ".limits";
   if (std::rename(nameof_temp.c_str(), nameof_limits.c_str()) != 0) {
     std::remove(nameof_temp.c_str());
@@ -474,6 +488,10 @@ bool SimpleTxtIO::transaction_(std::string *error) {
 
 bool SimpleTxtIO::ready_(std::string *error) {
   flush();
+  if (failed()) {
+    safe_error(error) = "SimpleTxtIO write failure";
+    return false;
+  }
   return true;
 }
 
@@ -484,6 +502,7 @@ void SimpleTxtIO::abort_() {
   chunk_valid_ = false;
   last_chunk_synced_ = true;
   flushed_ = true;
+  failed_ = false;
   contents_.close();
   contents_.open(nameof_contents_,
                  std::ios::binary | std::ios::out | std::ios::in);
diff --git a/src/simple_txt_io.h b/src/simple_txt_io.h
index f0e76b8..bbf594d 100644
--- a/src/simple_txt_io.h
+++ b/src/simple_txt_io.h
@@ -33,6 +33,7 @@ public:
       flushed_ = true;
     }
   }
+  bool failed() { return failed_ || contents_.fail(); }
   std::unique_ptr<char[]> read(addr start, addr desired, addr *actual);
   addr size() { return size_; }
   void dump(std::ostream &output = std::cout);
@@ -69,6 +70,7 @@ private:
   bool chunk_valid_ = false;
   bool last_chunk_synced_ = true;
   bool flushed_ = true;
+  bool failed_ = false;
   size_t chunk_index_;
   std::unique_ptr<char[]> chunk_;
   std::streamsize chunk_end_;
-- 
2.43.0


From d85a5ac1d87dc5ccee300e63db3836d9aa6d6ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:59 +0000
Subject: [PATCH 10/48] fix: SimpleAppender flushes its text map before voting
 ready, and reports failed recovery

---
 src/simple_appender.cc | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/simple_appender.cc b/src/simple_appender.cc
index 54fe8f0..c519f53 100644
--- a/src/simple_appender.cc
+++ b/src/simple_appender.cc
@@ -1,5 +1,7 @@
 #include "src/simple_appender.h"
 
+#include <cerrno>
+#include <cstdio>
 #include <memory>
 #include <string>
 #include <unistd.h>
@@ -93,10 +95,16 @@ bool SimpleAppender::recover(const std::string &recipe, bool commit,
                        text_compressor, commit);
   std::string txt_filename = working->make_name(TXT_NAME);
   std::string new_filename = txt_filename + ".new";
-  if (commit)
-    std::rename(new_filename.c_str(), txt_filename.c_str());
-  else
+  if (commit) {
+    // The rename may already have happened before the interruption.
+    if (std::rename(new_filename.c_str(), txt_filename.c_str()) != 0 &&
+        errno != ENOENT) {
+      safe_error(error) = "SimpleAppender can't recover: " + txt_filename;
+      return false;
+    }
+  } else {
     std::remove(new_filename.c_str());
+  }
   std::string lock_filename = txt_filename + ".lock";
   std::remove(lock_filename.c_str());
   return true;
@@ -311,6 +319,13 @@ bool SimpleAppender::transaction_(std::string *error) {
 bool SimpleAppender::ready_(std::string *error) {
   lock_.lock();
   bool result = !failed_ && adding_ && io_->ready(error);
+  if (result) {
+    txt_.flush();
+    if (txt_.fail()) {
+      safe_error(error) = "SimpleAppender can't write to: " + txt_filename_;
+      result = false;
+    }
+  }
   if (!result && !failed_ && !adding_)
     safe_error(error) = "SimpleAppender not in transaction";
   else if (!result && failed_)
-- 
2.43.0


From 041dc3cc62cdf53c5456a57a0c694e0a39e7f5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:59 +0000
Subject: [PATCH 11/48] fix: SimpleBuilder reports failed writes of sorted,
 temporary and final files

---
 src/simple_builder.cc | 56 +++++++++++++++++++++++++++++++++++--------
 src/simple_builder.h  |  2 ++
 2 files changed, 48 insertions(+), 10 deletions(-)

diff --git a/src/simple_builder.cc b/src/simple_builder.cc
index 9b4cfdd..cc4bff7 100644
--- a/src/simple_builder.cc
+++ b/src/simple_builder.cc
@@ -84,6 +84,7 @@ bool merge_records(const std::string &in0_filename,
     out.write(reinterpret_cast<char *>(&t1), sizeof(t1));
     in1.read(reinterpret_cast<char *>(&t1), sizeof(t1));
   }
+  out.close();
   if (out.fail()) {
     safe_error(error) = "In merge_records, write failure to: " + out_filename;
     return false;
@@ -118,12 +119,12 @@ bool sort_records(std::shared_ptr<Working> working,
       }
       for (auto &tt : ts)
         tout.write(reinterpret_cast<char *>(&tt), sizeof(tt));
+      tout.close();
       if (tout.fail()) {
         safe_error(error) =
             "In sort_records, write failure to: " + temp_filename;
         return false;
       }
-      tout.close();
       ts.clear();
       tq.push(temp_filename);
     }
@@ -141,11 +142,11 @@ bool sort_records(std::shared_ptr<Working> working,
     }
     for (auto &tt : ts)
       tout.write(reinterpret_cast<char *>(&tt), sizeof(tt));
+    tout.close();
     if (tout.fail()) {
       safe_error(error) = "In sort_records, write failure to: " + temp_filename;
       return false;
     }
-    tout.close();
     ts.clear();
     tq.push(temp_filename);
   }
@@ -431,23 +432,27 @@ bool SimpleBuilder::maybe_flush_tokens(bool force, std::string *error) {
       auto token_sorter =
           [](std::string tok_filename,
              std::unique_ptr<std::vector<TokRecord>> tokens,
-             std::shared_ptr<SimplePostingFactory> posting_factory) {
+             std::shared_ptr<SimplePostingFactory> posting_factory,
+             std::atomic<bool> *sorter_failed) {
             std::sort(tokens->begin(), tokens->end(), tok_cmp);
             std::fstream tok(tok_filename, std::ios::binary | std::ios::out);
-            assert(!tok.fail());
             std::vector<cottontail::TokRecord>::iterator it = tokens->begin();
             while (it < tokens->end()) {
               std::shared_ptr<cottontail::SimplePosting> posting =
                   posting_factory->posting_from_tokens(&it, tokens->end());
               posting->write(&tok);
             }
+            tok.close();
+            if (tok.fail())
+              *sorter_failed = true;
           };
       if (verbose())
         std::cout << "SimpleBuilder starting thread to sort token buffer\n";
       std::string tok_filename = working_->make_temp();
       tokq_.push(tok_filename);
       workers_.emplace_back(std::thread(token_sorter, tok_filename,
-                                        std::move(tokens_), posting_factory_));
+                                        std::move(tokens_), posting_factory_,
+                                        &sorter_failed_));
       tokens_ = std::make_unique<std::vector<TokRecord>>();
     } else {
       if (verbose())
@@ -468,6 +473,12 @@ bool SimpleBuilder::maybe_flush_tokens(bool force, std::string *error) {
             posting_factory_->posting_from_tokens(&it, tokens_->end());
         posting->write(&tok);
       }
+      tok.close();
+      if (tok.fail()) {
+        safe_error(error) =
+            "SimpleBuilder can't write temporary file for tokens";
+        return false;
+      }
       tokq_.push(tok_filename);
       tokens_->clear();
     }
@@ -552,6 +563,16 @@ bool SimpleBuilder::build_index(std::string *error) {
       return false;
     }
   }
+  pst.close();
+  if (pst.fail()) {
+    safe_error(error) = "SimpleBuilder can't write to: " + pst_filename_;
+    return false;
+  }
+  idx.close();
+  if (idx.fail()) {
+    safe_error(error) = "SimpleBuilder can't write to: " + idx_filename_;
+    return false;
+  }
   while (!tokq_.empty()) {
     std::string remove_me = tokq_.front();
     std::remove(remove_me.c_str());
@@ -622,10 +643,10 @@ bool SimpleBuilder::maybe_flush_annotations(bool force, std::string *error) {
     auto annotation_sorter =
         [](std::string ann_filename,
            std::unique_ptr<std::vector<Annotation>> annotations,
-           std::shared_ptr<SimplePostingFactory> posting_factory) {
+           std::shared_ptr<SimplePostingFactory> posting_factory,
+           std::atomic<bool> *sorter_failed) {
           std::sort(annotations->begin(), annotations->end(), annotation_cmp);
           std::fstream ann(ann_filename, std::ios::binary | std::ios::out);
-          assert(!ann.fail());
           std::vector<Annotation>::iterator it = annotations->begin();
           while (it < annotations->end()) {
             std::shared_ptr<cottontail::SimplePosting> posting =
@@ -633,6 +654,9 @@ bool SimpleBuilder::maybe_flush_annotations(bool force, std::string *error) {
                                                           annotations->end());
             posting->write(&ann);
           }
+          ann.close();
+          if (ann.fail())
+            *sorter_failed = true;
         };
     std::string ann_filename = working_->make_temp();
     annq_.push(ann_filename);
@@ -641,12 +665,12 @@ bool SimpleBuilder::maybe_flush_annotations(bool force, std::string *error) {
         std::cout << "SimpleBuilder starting thread to sort annotations\n";
       workers_.emplace_back(std::thread(annotation_sorter, ann_filename,
                                         std::move(annotations_),
-                                        posting_factory_));
+                                        posting_factory_, &sorter_failed_));
     } else {
       if (verbose())
         std::cout << "SimpleBuilder sorting annotations\n";
       annotation_sorter(ann_filename, std::move(annotations_),
-                        posting_factory_);
+                        posting_factory_, &sorter_failed_);
     }
     annotations_ = std::make_unique<std::vector<Annotation>>();
     assert(annotations_ != nullptr);
@@ -660,7 +684,7 @@ bool SimpleBuilder::add_annotation_(addr feature, addr p, addr q, fval v,
   // annotations
   if (feature != null_feature && p >= 0 && p <= q) {
     annotations_->emplace_back(feature, p, q, v);
-    maybe_flush_annotations(false, error);
+    return maybe_flush_annotations(false, error);
   }
   return true;
 };
@@ -674,7 +698,15 @@ bool SimpleBuilder::finalize_(std::string *error) {
   if (verbose())
     std::cout << "SimpleBuilder finalizing\n";
   txt_.close();
+  if (txt_.fail()) {
+    safe_error(error) = "SimpleBuilder can't write to: " + txt_filename_;
+    return false;
+  }
   io_->flush();
+  if (io_->failed()) {
+    safe_error(error) = "SimpleBuilder can't write text";
+    return false;
+  }
   if (!maybe_flush_tokens(true, error))
     return false;
   if (!maybe_flush_annotations(true, error))
@@ -685,6 +717,10 @@ bool SimpleBuilder::finalize_(std::string *error) {
     for (auto &worker : workers_)
       worker.join();
   }
+  if (sorter_failed_) {
+    safe_error(error) = "SimpleBuilder can't write temporary files";
+    return false;
+  }
   if (verbose())
     std::cout << "SimpleBuilder building inverted index\n";
   if (!build_index(error))
diff --git a/src/simple_builder.h b/src/simple_builder.h
index c71851d..38f083c 100644
--- a/src/simple_builder.h
+++ b/src/simple_builder.h
@@ -1,6 +1,7 @@
 #ifndef COTTONTAIL_SRC_SIMPLE_BUILDER_H_
 #define COTTONTAIL_SRC_SIMPLE_BUILDER_H_
 
+#include <atomic>
 #include <fstream>
 #include <iostream>
 #include <memory>
@@ -88,6 +89,7 @@ private:
   bool write_dna_ = true;
   bool multithreaded_ = true;
   std::vector<std::thread> workers_;
+  std::atomic<bool> sorter_failed_{false};
 };
 
 bool check_annotations(const std::string &filename, std::string *error);
-- 
2.43.0


From 824e534ffc3f1d49e93299cb5067df89639f624f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:59 +0000
Subject: [PATCH 12/48] fix: BuilderAnnotator propagates add_annotation
 failures

---
 src/scribe.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/scribe.cc b/src/scribe.cc
index ae8ebf6..9cb301c 100644
--- a/src/scribe.cc
+++ b/src/scribe.cc
@@ -124,8 +124,7 @@ private:
       safe_error(error) = "BuilderAnnotator has null builder";
       return false;
     }
-    builder_->add_annotation(feature, p, q, v, error);
-    return true;
+    return builder_->add_annotation(feature, p, q, v, error);
   };
   bool transaction_(std::string *error) final { return true; };
   bool ready_(std::string *error) final { return true; };
-- 
2.43.0


From e2c64ee486ec8b5ca999d2d3a4fceaf3176b0262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:32 +0000
Subject: [PATCH 13/48] fix: SimpleAnnotator reads its failure state under its
 lock and shares its worker flag as an atomic

---
 src/simple_annotator.cc | 12 +++++++-----
 src/simple_annotator.h  |  3 ++-
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/simple_annotator.cc b/src/simple_annotator.cc
index 915c777..bb6621a 100644
--- a/src/simple_annotator.cc
+++ b/src/simple_annotator.cc
@@ -66,8 +66,7 @@ SimpleAnnotator::make(const std::string &recipe,
     return nullptr;
   ann->idx_filename_ = working->make_name(IDX_NAME);
   ann->pst_filename_ = working->make_name(PST_NAME);
-  ann->cannot_create_temp_files_ = std::make_shared<bool>(new bool());
-  *ann->cannot_create_temp_files_ = false;
+  ann->cannot_create_temp_files_ = std::make_shared<std::atomic<bool>>(false);
   if (add_file_size > 0)
     ann->add_file_size_ = add_file_size;
   ann->posting_factory_ = SimplePostingFactory::make(ann->posting_compressor_,
@@ -116,11 +115,12 @@ bool SimpleAnnotator::recover(const std::string &recipe, bool commit,
 std::string SimpleAnnotator::recipe_() { return the_recipe_; }
 
 bool SimpleAnnotator::transaction_(std::string *error) {
+  lock_.lock();
   if (failed_) {
     safe_error(error) = "SimpleAnnotator in failed state";
+    lock_.unlock();
     return false;
   }
-  lock_.lock();
   if (adding_) {
     safe_error(error) = "SimpleAnnotator already in transaction";
     lock_.unlock();
@@ -231,7 +231,8 @@ void SimpleAnnotator::maybe_flush_additions(bool force) {
     auto sorter = [](std::string add_filename,
                      std::unique_ptr<std::vector<Annotation>> added,
                      std::shared_ptr<SimplePostingFactory> posting_factory,
-                     std::shared_ptr<bool> cannot_create_temp_files) {
+                     std::shared_ptr<std::atomic<bool>>
+                         cannot_create_temp_files) {
       std::sort(added->begin(), added->end(), annotation_cmp);
       std::fstream addf(add_filename, std::ios::binary | std::ios::out);
       if (addf.fail()) {
@@ -264,11 +265,12 @@ void SimpleAnnotator::maybe_flush_additions(bool force) {
 
 bool SimpleAnnotator::annotate_(addr feature, addr p, addr q, fval v,
                                 std::string *error) {
+  lock_.lock();
   if (failed_) {
     safe_error(error) = "SimpleAnnotator in failed state";
+    lock_.unlock();
     return false;
   }
-  lock_.lock();
   if (!adding_) {
     safe_error(error) = "SimpleAnnotator not in transaction";
     lock_.unlock();
diff --git a/src/simple_annotator.h b/src/simple_annotator.h
index aaf4b5b..dad19a0 100644
--- a/src/simple_annotator.h
+++ b/src/simple_annotator.h
@@ -1,6 +1,7 @@
 #ifndef COTTONTAIL_SRC_SIMPLE_ANNOTATOR_H_
 #define COTTONTAIL_SRC_SIMPLE_ANNOTATOR_H_
 
+#include <atomic>
 #include <fstream>
 #include <map>
 #include <memory>
@@ -61,7 +62,7 @@ private:
   std::string idx_filename_;
   std::string pst_filename_;
   std::mutex lock_;
-  std::shared_ptr<bool> cannot_create_temp_files_;
+  std::shared_ptr<std::atomic<bool>> cannot_create_temp_files_;
   static const size_t ADD_FILE_SIZE = 256 * 1024 * 1024;
   size_t add_file_size_ = ADD_FILE_SIZE;
   std::shared_ptr<SimplePostingFactory> posting_factory_;
-- 
2.43.0


From b676ad83b3db1d99dd4c85d44c3552c238c4bd93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:32 +0000
Subject: [PATCH 14/48] fix: SimpleTxt::tokens_ reads its memo under the lock
 that guards it

---
 src/simple_txt.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/simple_txt.cc b/src/simple_txt.cc
index 5edb33f..cf15191 100644
--- a/src/simple_txt.cc
+++ b/src/simple_txt.cc
@@ -211,8 +211,11 @@ std::string SimpleTxt::translate_(addr p, addr q) {
 }
 
 addr SimpleTxt::tokens_() {
-  if (computed_tokens_valid_)
-    return computed_tokens_;
+  {
+    const std::lock_guard<std::mutex> lock(mutex_);
+    if (computed_tokens_valid_)
+      return computed_tokens_;
+  }
   addr full_blocks;
   if (map_size_ < 3)
     full_blocks = 0;
-- 
2.43.0


From 70b6cd8ba6fc15617e13812894a2e184a77cd19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:32 +0000
Subject: [PATCH 15/48] fix: FiverTxt::range_ reads its memo under the lock
 that guards it

---
 src/fiver.cc | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/fiver.cc b/src/fiver.cc
index aa69b29..51d98f6 100644
--- a/src/fiver.cc
+++ b/src/fiver.cc
@@ -317,15 +317,13 @@ private:
     return count_;
   }
   bool range_(addr *p, addr *q) {
+    std::lock_guard<std::mutex> lock(mutex_);
     if (!range_valid_) {
-      std::lock_guard<std::mutex> lock(mutex_);
-      if (!range_valid_) {
-        range_valid_ = true;
-        hopper_->tau(minfinity + 1, &range_p_, &range_q_);
-        if (range_p_ < maxfinity) {
-          addr ignore;
-          hopper_->uat(maxfinity - 1, &ignore, &range_q_);
-        }
+      range_valid_ = true;
+      hopper_->tau(minfinity + 1, &range_p_, &range_q_);
+      if (range_p_ < maxfinity) {
+        addr ignore;
+        hopper_->uat(maxfinity - 1, &ignore, &range_q_);
       }
     }
     *p = range_p_;
-- 
2.43.0


From 9a5934854dff280e7353ea068a5d97b9dc0bf43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:32 +0000
Subject: [PATCH 16/48] fix: Working::reader consults its load set under the
 lock that guards it

---
 src/working.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/working.h b/src/working.h
index 0fe3023..4b4ad8b 100644
--- a/src/working.h
+++ b/src/working.h
@@ -139,7 +139,10 @@ public:
   std::shared_ptr<Reader> reader(const std::string &name,
                                  std::string *error = nullptr) {
     std::string fullname = make_name(name);
-    return Reader::make(fullname, load_.find(name) != load_.end(), error);
+    lock_.lock();
+    bool load = load_.find(name) != load_.end();
+    lock_.unlock();
+    return Reader::make(fullname, load, error);
   };
   std::shared_ptr<Reader> reader(const std::string &name,
                                  const std::string &recipe,
-- 
2.43.0


From 0639e1d7b5c7d197bc1198b3b6bbf3639b6ec975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:32 +0000
Subject: [PATCH 17/48] fix: Bigwig accesses the shared merge flag and working
 directory under the fluffle's lock

---
 src/bigwig.cc | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/src/bigwig.cc b/src/bigwig.cc
index 2ec1ca1..935fdc2 100644
--- a/src/bigwig.cc
+++ b/src/bigwig.cc
@@ -632,7 +632,9 @@ std::shared_ptr<Bigwig> Bigwig::make(
     bigwig->fluffle_ = Fluffle::make();
   else
     bigwig->fluffle_ = fluffle;
+  bigwig->fluffle_->lock.lock();
   bigwig->fluffle_->working = working;
+  bigwig->fluffle_->lock.unlock();
   std::shared_ptr<Compressor> null_compressor = nullptr;
   if (posting_compressor == nullptr || fvalue_compressor == nullptr ||
       text_compressor == nullptr)
@@ -659,12 +661,11 @@ std::shared_ptr<Bigwig> Bigwig::make(
 
 void Bigwig::merge(bool on) {
   set_parameter("merge", okay(on));
-  if (on) {
-    fluffle_->merge = true;
+  fluffle_->lock.lock();
+  fluffle_->merge = on;
+  fluffle_->lock.unlock();
+  if (on)
     try_merge();
-  } else {
-    fluffle_->merge = false;
-  }
 }
 
 std::shared_ptr<Warren> Bigwig::clone_(std::string *error) {
@@ -1338,15 +1339,13 @@ void merge_worker(std::shared_ptr<Fluffle> fluffle) {
 } // namespace
 
 void Bigwig::try_merge() {
-  if (fluffle_->merge) {
-    fluffle_->lock.lock();
-    if (fluffle_->workers < fluffle_->max_workers) {
-      fluffle_->workers++;
-      std::thread t(merge_worker, fluffle_);
-      t.detach();
-    }
-    fluffle_->lock.unlock();
+  fluffle_->lock.lock();
+  if (fluffle_->merge && fluffle_->workers < fluffle_->max_workers) {
+    fluffle_->workers++;
+    std::thread t(merge_worker, fluffle_);
+    t.detach();
   }
+  fluffle_->lock.unlock();
 }
 
 void Bigwig::commit_() {
-- 
2.43.0


From fee05c963f7668c78e0872d8ad0fe0a30cde70a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:32 +0000
Subject: [PATCH 18/48] fix: SimpleIdx::feature_histogram copies the directory
 under the lock that guards it

---
 src/simple_idx.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/simple_idx.cc b/src/simple_idx.cc
index b7080fb..e70df1d 100644
--- a/src/simple_idx.cc
+++ b/src/simple_idx.cc
@@ -425,7 +425,10 @@ addr SimpleIdx::vocab_() {
 
 std::map<fval, addr> SimpleIdx::feature_histogram() {
   std::map<fval, addr> histogram;
-  for (auto &ir : pst_map_) {
+  cache_lock_.lock();
+  std::vector<IdxRecord> pst_map = pst_map_;
+  cache_lock_.unlock();
+  for (auto &ir : pst_map) {
     std::shared_ptr<CacheRecord> c = load_cache(ir.feature);
     if (c != nullptr) {
       c->wait();
-- 
2.43.0


From ea594f1f97c7c53e3f487be801b03ced2cd6ed07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:32 +0000
Subject: [PATCH 19/48] fix: Committable::transacting reads its state under its
 lock

---
 src/committable.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/committable.h b/src/committable.h
index f11cf59..ca60f66 100644
--- a/src/committable.h
+++ b/src/committable.h
@@ -63,7 +63,12 @@ public:
     started_ = readied_ = vote_ = false;
     lock_.unlock();
   }
-  inline bool transacting() { return started_; }
+  inline bool transacting() {
+    lock_.lock();
+    bool result = started_;
+    lock_.unlock();
+    return result;
+  }
 
 protected:
   Committable(){};
-- 
2.43.0


From c7275928ce561dc2a422e1b03c631790579a1fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:33 +0000
Subject: [PATCH 20/48] fix: the merge worker keeps the sources when storing
 the merged shard fails

---
 src/bigwig.cc | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/bigwig.cc b/src/bigwig.cc
index 935fdc2..bca3d4d 100644
--- a/src/bigwig.cc
+++ b/src/bigwig.cc
@@ -1282,10 +1282,8 @@ void merge_worker(std::shared_ptr<Fluffle> fluffle) {
     std::shared_ptr<Owsla> output;
     if (action == MergeAction::fiver_merge) {
       std::shared_ptr<Fiver> merged = Fiver::merge(fivers);
-      if (merged != nullptr) {
-        merged->pickle();
+      if (merged != nullptr && merged->pickle())
         output = merged;
-      }
     } else if (action == MergeAction::hazel_merge) {
       std::string error;
       output = Hazel::merge(hazels, hazel_merge_destination, hazel_parameters,
-- 
2.43.0


From 36dc78899ee43ffe6d322e6fd9b74540b54386fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:36 +0000
Subject: [PATCH 21/48] fix: a joint commit accepts members whose transaction
 is empty

---
 src/fiver.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/fiver.cc b/src/fiver.cc
index 51d98f6..8819ef1 100644
--- a/src/fiver.cc
+++ b/src/fiver.cc
@@ -641,9 +641,8 @@ std::string Fiver::commit_command() {
     return "";
   std::string ready_name = working()->make_name(name() + "." + recipe());
   std::string final_name = working()->make_name("fiver." + recipe());
-  assert(access(ready_name.c_str(), F_OK) == 0);
   if (access(ready_name.c_str(), F_OK) != 0)
-    return "";
+    return ""; // an empty transaction leaves nothing to publish
   return "mv -n " + shell_quote(ready_name) + " " + shell_quote(final_name) +
          " 2>/dev/null; rm -f " + shell_quote(ready_name);
 }
-- 
2.43.0


From 05a44f572ead0e45f298684c0ee17859dc175e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:56 +0000
Subject: [PATCH 22/48] fix: a malformed recipe option is refused, not used

---
 src/recipe.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/recipe.cc b/src/recipe.cc
index 7373b6f..ce2b09b 100644
--- a/src/recipe.cc
+++ b/src/recipe.cc
@@ -241,6 +241,7 @@ bool interpret_option(std::string *recipe, const std::string &option,
       std::sregex_token_iterator(option.begin(), option.end(), sep, -1), {}};
   if (pieces.size() < 2 || pieces.size() > 3) {
     safe_error(error) = "Malformed option: " + option;
+    return false;
   }
   std::map<std::string, std::string>::iterator item =
       parameters.find(pieces[0]);
@@ -301,6 +302,7 @@ bool extract_option(const std::string &recipe, const std::string &option,
       std::sregex_token_iterator(option.begin(), option.end(), sep, -1), {}};
   if (pieces.size() < 1 || pieces.size() > 3) {
     safe_error(error) = "Malformed option: " + option;
+    return false;
   }
   std::map<std::string, std::string>::iterator item =
       parameters.find(pieces[0]);
-- 
2.43.0


From 13a4ac1604028db4fc446905ce1bf980be62ced8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:56 +0000
Subject: [PATCH 23/48] fix: recipe option lookups are compared with the end of
 the map they searched

---
 src/recipe.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/recipe.cc b/src/recipe.cc
index ce2b09b..690e6d7 100644
--- a/src/recipe.cc
+++ b/src/recipe.cc
@@ -262,7 +262,7 @@ bool interpret_option(std::string *recipe, const std::string &option,
   } else {
     std::map<std::string, std::string>::iterator item_recipe =
         item_parameters.find("recipe");
-    if (item_recipe == parameters.end()) {
+    if (item_recipe == item_parameters.end()) {
       safe_error(error) = "Option parameters not found for: " + pieces[0];
       return false;
     }
@@ -317,13 +317,13 @@ bool extract_option(const std::string &recipe, const std::string &option,
   }
   std::map<std::string, std::string>::iterator item_name =
       item_parameters.find("name");
-  if (item_name == parameters.end()) {
+  if (item_name == item_parameters.end()) {
     safe_error(error) = "Option setting not found for: " + pieces[0];
     return false;
   }
   std::map<std::string, std::string>::iterator item_recipe =
       item_parameters.find("recipe");
-  if (item_recipe == parameters.end()) {
+  if (item_recipe == item_parameters.end()) {
     safe_error(error) = "Option parameters not found for: " + pieces[0];
     return false;
   }
@@ -339,6 +339,10 @@ bool extract_option(const std::string &recipe, const std::string &option,
     }
     std::map<std::string, std::string>::iterator item_recipe_item =
         item_recipe_parameters.find(pieces[1]);
+    if (item_recipe_item == item_recipe_parameters.end()) {
+      safe_error(error) = "No option: " + option;
+      return false;
+    }
     *value = item_recipe_item->second;
   }
   return true;
-- 
2.43.0


From e08cee2bd55fc944187ae61b16fea47d27168b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:56 +0000
Subject: [PATCH 24/48] fix: scribing a file that fails is reported and leaves
 no transaction open

---
 src/scribe.cc | 55 +++++++++++++++++++++++++++------------------------
 1 file changed, 29 insertions(+), 26 deletions(-)

diff --git a/src/scribe.cc b/src/scribe.cc
index 9cb301c..5b8df41 100644
--- a/src/scribe.cc
+++ b/src/scribe.cc
@@ -263,35 +263,33 @@ bool scribe_files(const std::vector<std::string> &filenames,
   addr filename_feature = scribe->featurizer()->featurize("filename:");
   addr content_feature = scribe->featurizer()->featurize("content:");
   for (auto &filename : filenames) {
-    if (!scribe->transaction(error))
-      return false;
     if (verbose)
       std::cerr << "scribing: " << filename << "\n";
     std::shared_ptr<std::string> content = inhale(filename, error);
-    if (content) {
-      addr name_p, name_q, content_p, content_q;
-      if (!scribe->appender()->append(filename, &name_p, &name_q, error))
-        return false;
-      if (!scribe->appender()->append(*content, &content_p, &content_q, error))
-        return false;
-      if (!scribe->annotator()->annotate(file_feature, name_p, content_q,
-                                         error))
-        return false;
-      if (!scribe->annotator()->annotate(filename_feature, name_p, name_q,
-                                         error))
-        return false;
-      if (!scribe->annotator()->annotate(content_feature, content_p, content_q,
-                                         error))
-        return false;
-      if (verbose)
-        std::cerr << "scribe_files commiting: " << filename << "\n";
-      if (!scribe->ready()) {
-        safe_error(error) =
-            "Function scribe_files unable to commit transaction";
-        return false;
-      }
-      scribe->commit();
+    if (content == nullptr)
+      return false;
+    if (!scribe->transaction(error))
+      return false;
+    addr name_p, name_q, content_p, content_q;
+    if (!scribe->appender()->append(filename, &name_p, &name_q, error) ||
+        !scribe->appender()->append(*content, &content_p, &content_q, error) ||
+        !scribe->annotator()->annotate(file_feature, name_p, content_q,
+                                       error) ||
+        !scribe->annotator()->annotate(filename_feature, name_p, name_q,
+                                       error) ||
+        !scribe->annotator()->annotate(content_feature, content_p, content_q,
+                                       error)) {
+      scribe->abort();
+      return false;
+    }
+    if (verbose)
+      std::cerr << "scribe_files commiting: " << filename << "\n";
+    if (!scribe->ready()) {
+      safe_error(error) = "Function scribe_files unable to commit transaction";
+      scribe->abort();
+      return false;
     }
+    scribe->commit();
   }
   if (verbose)
     std::cerr << "scribe done\n";
@@ -312,6 +310,7 @@ bool scribe_jsonl(const std::vector<std::string> &filenames,
                   bool verbose) {
   if (scribe == nullptr) {
     safe_error(error) = "Function scribe_jsonl passed null scribe";
+    return false;
   }
   for (auto &filename : filenames) {
     if (verbose)
@@ -336,6 +335,7 @@ bool scribe_jsonl(const std::vector<std::string> &filenames,
                        &q0)) {
         safe_error(error) = "Cannot scribe json line: " + filename + ":" +
                             std::to_string(number);
+        scribe->abort();
         return false;
       }
       p = std::min(p, p0);
@@ -344,10 +344,13 @@ bool scribe_jsonl(const std::vector<std::string> &filenames,
     }
     if (p < maxfinity && q > minfinity && p <= q)
       if (!scribe->annotator()->annotate(
-              scribe->featurizer()->featurize(path(filename)), p, q, error))
+              scribe->featurizer()->featurize(path(filename)), p, q, error)) {
+        scribe->abort();
         return false;
+      }
     if (!scribe->ready()) {
       safe_error(error) = "Function scribe_jsonl unable to commit transaction";
+      scribe->abort();
       return false;
     }
     scribe->commit();
-- 
2.43.0


From ca614cdf86badb8cbde1c8653e1f479c152e21c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:56 +0000
Subject: [PATCH 25/48] fix: term annotations report why they fail, and only
 then

---
 src/ranking.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ranking.cc b/src/ranking.cc
index ad39c74..e41de8f 100644
--- a/src/ranking.cc
+++ b/src/ranking.cc
@@ -762,11 +762,12 @@ bool tf_annotations(std::shared_ptr<Warren> warren, std::string *error,
                     addr start, addr end) {
   std::string content_key = "container";
   std::string content_query = "";
-  if (!warren->get_parameter(content_key, &content_query, error))
+  if (!warren->get_parameter(content_key, &content_query))
     content_query = warren->default_container();
   if (content_query == "") {
     safe_error(error) =
         "tf_annotations can't find a definition for item content";
+    return false;
   }
   std::unique_ptr<cottontail::Hopper> hopper =
       warren->hopper_from_gcl(content_query, error);
@@ -855,7 +856,7 @@ bool tf_annotations(std::shared_ptr<Warren> warren, std::string *error,
 bool tf_df_annotations(std::shared_ptr<Warren> warren, std::string *error) {
   std::string content_key = "container";
   std::string content_query = "";
-  if (!warren->get_parameter(content_key, &content_query, error))
+  if (!warren->get_parameter(content_key, &content_query))
     content_query = warren->default_container();
   if (content_query == "") {
     safe_error(error) =
@@ -1670,7 +1671,7 @@ bool tf_field_annotations(std::shared_ptr<Warren> warren, std::string *error) {
     fhoppers.push_back(std::move(hopper));
   }
   std::shared_ptr<Featurizer> df_featurizer =
-      TaggingFeaturizer::make(warren->featurizer(), "df");
+      TaggingFeaturizer::make(warren->featurizer(), "df", error);
   if (df_featurizer == nullptr)
     return false;
   std::shared_ptr<Featurizer> tf_featurizer =
-- 
2.43.0


From 1c2ce8668e6695412a8a6c663859eff924d052cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:56 +0000
Subject: [PATCH 26/48] fix: IdfStats takes the statistics a warren has from
 its parameters

---
 src/idf_stats.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/idf_stats.cc b/src/idf_stats.cc
index dad3e32..a5f749f 100644
--- a/src/idf_stats.cc
+++ b/src/idf_stats.cc
@@ -47,13 +47,13 @@ std::shared_ptr<Stats> IdfStats::make(const std::string &recipe,
     return nullptr;
   std::string value;
   std::string unstemmed = "unstemmed";
-  if (!warren->get_parameter(unstemmed, &value, error))
+  if (warren->get_parameter(unstemmed, &value) && value != "")
     stats->have_unstemmed_ = okay(value);
   std::string idf = "idf";
-  if (!warren->get_parameter(idf, &value, error))
+  if (warren->get_parameter(idf, &value) && value != "")
     stats->have_idf_ = okay(value);
   std::string rsj = "rsj";
-  if (!warren->get_parameter(rsj, &value, error))
+  if (warren->get_parameter(rsj, &value) && value != "")
     stats->have_rsj_ = okay(value);
   return stats;
 }
-- 
2.43.0


From 8cec67d6913a5787750ecde9967fe4295d91dc7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:56 +0000
Subject: [PATCH 27/48] fix: making a new bigwig leaves no message about the
 missing dna

---
 src/bigwig.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bigwig.cc b/src/bigwig.cc
index bca3d4d..f5064f3 100644
--- a/src/bigwig.cc
+++ b/src/bigwig.cc
@@ -611,7 +611,7 @@ std::shared_ptr<Bigwig> Bigwig::make(
     std::shared_ptr<Compressor> text_compressor) {
   if (working != nullptr) {
     std::string dna;
-    if (read_dna(working, &dna, error)) {
+    if (read_dna(working, &dna)) {
       safe_error(error) = "Burrow already has cottontail dna";
       return nullptr;
     }
-- 
2.43.0


From d34ae116fbff383f9bea29263efac8b4578c64df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:56 +0000
Subject: [PATCH 28/48] fix: failures that came without a message now have one

---
 src/annotator.cc      |  3 ++-
 src/builder.cc        |  1 +
 src/committable.h     |  2 ++
 src/fiver.cc          |  2 +-
 src/hazel.cc          | 22 ++++++++++++----------
 src/json_txt.cc       |  9 +++++++--
 src/stemmer.cc        |  5 ++++-
 src/tfdf_compressor.h |  4 +++-
 8 files changed, 32 insertions(+), 16 deletions(-)

diff --git a/src/annotator.cc b/src/annotator.cc
index 4707025..79511ad 100644
--- a/src/annotator.cc
+++ b/src/annotator.cc
@@ -68,7 +68,8 @@ bool Annotator::annotate_(const std::string &annotations_filename,
        !annf.fail();
        annf.read(reinterpret_cast<char *>(&current), sizeof(Annotation)))
     if (current.feature != null_feature &&
-        !annotate(current.feature, current.p, current.q, current.v))
+        !annotate(current.feature, current.p, current.q, current.v,
+                  error))
       return false;
   annf.close();
   return true;
diff --git a/src/builder.cc b/src/builder.cc
index 859cc16..866d836 100644
--- a/src/builder.cc
+++ b/src/builder.cc
@@ -173,6 +173,7 @@ bool build_trec(const std::vector<std::string> &text,
 
 bool build_json(const std::vector<std::string> &text,
                 std::shared_ptr<Builder> builder, std::string *error) {
+  safe_error(error) = "Function build_json not implemented";
   return false;
 }
 } // namespace cottontail
diff --git a/src/committable.h b/src/committable.h
index ca60f66..6bad65e 100644
--- a/src/committable.h
+++ b/src/committable.h
@@ -41,6 +41,8 @@ public:
     bool result;
     if (readied_) {
       result = vote_;
+      if (!result)
+        safe_error(error) = "Commitable already failed to be ready.";
     } else {
       readied_ = true;
       vote_ = ready_(error);
diff --git a/src/fiver.cc b/src/fiver.cc
index 8819ef1..5d4933b 100644
--- a/src/fiver.cc
+++ b/src/fiver.cc
@@ -141,7 +141,7 @@ private:
       if (token.address - chunk_address_ > CHUNK_SIZE) {
         if (!annotator_->annotate(featurizer_->featurize(text_chunk_tag),
                                   chunk_address_, token.address - 1,
-                                  chunk_offset_))
+                                  chunk_offset_, error))
           return false;
         chunk_address_ = token.address;
         chunk_offset_ = offset + token.offset;
diff --git a/src/hazel.cc b/src/hazel.cc
index a0283b6..56c44c7 100644
--- a/src/hazel.cc
+++ b/src/hazel.cc
@@ -423,13 +423,14 @@ addr hazel_idx_header_length() {
   return hazel_idx_magic.size() + 3 * sizeof(addr);
 }
 
-bool hazel_file_size(const std::string &filename, addr *size) {
+bool hazel_file_size(const std::string &filename, addr *size,
+                     std::string *error = nullptr) {
   std::fstream in(filename, std::ios::binary | std::ios::in | std::ios::ate);
-  if (in.fail())
-    return false;
-  std::streampos end = in.tellg();
-  if (end < 0)
+  std::streampos end = in.fail() ? std::streampos(-1) : in.tellg();
+  if (end < 0) {
+    safe_error(error) = "Hazel can't get size of: " + filename;
     return false;
+  }
   *size = (addr)end;
   return true;
 }
@@ -469,7 +470,7 @@ bool hazel_read_checkpoint_directory(const std::string &dct_name,
                                      std::vector<HazelPostingEntry> *directory,
                                      std::string *error) {
   addr size;
-  if (!hazel_file_size(dct_name, &size))
+  if (!hazel_file_size(dct_name, &size, error))
     return false;
   addr usable = size - (size % hazel_posting_entry_size);
   if (usable != size && !hazel_truncate_file(dct_name, usable, error))
@@ -509,7 +510,7 @@ bool hazel_repair_checkpoint(const std::string &pst_name,
                              std::vector<HazelPostingEntry> *directory,
                              std::string *error) {
   addr pst_size;
-  if (!hazel_file_size(pst_name, &pst_size))
+  if (!hazel_file_size(pst_name, &pst_size, error))
     return false;
   if (!hazel_read_checkpoint_directory(dct_name, directory, error))
     return false;
@@ -520,7 +521,6 @@ bool hazel_repair_checkpoint(const std::string &pst_name,
     const HazelPostingEntry &entry = (*directory)[i];
     if (entry.end < previous_end ||
         (i > 0 && entry.feature <= (*directory)[i - 1].feature)) {
-      safe_error(error) = "Hazel merge got inconsistent idx checkpoint";
       break;
     }
     if (entry.end > covered_end)
@@ -756,8 +756,10 @@ bool HazelIdx::merge(const std::vector<std::shared_ptr<HazelIdx>> &idxs,
         posting->push(p, q, addr2fval(fval2addr(v) + text_bases[i]));
       }
     }
-    if (posting->size() == 0)
+    if (posting->size() == 0) {
+      safe_error(error) = "Hazel merge got empty text chunk posting";
       return nullptr;
+    }
     return posting;
   };
 
@@ -872,7 +874,7 @@ bool HazelIdx::merge(const std::vector<std::shared_ptr<HazelIdx>> &idxs,
     std::shared_ptr<SimplePosting> posting;
     if (next == text_chunk_feature) {
       posting = text_chunk_posting();
-      if (has_source_feature(text_chunk_feature) && posting == nullptr)
+      if (posting == nullptr)
         return false;
     } else {
       std::vector<std::shared_ptr<SimplePosting>> postings;
diff --git a/src/json_txt.cc b/src/json_txt.cc
index 426dce7..b4d7f0d 100644
--- a/src/json_txt.cc
+++ b/src/json_txt.cc
@@ -51,8 +51,10 @@ JsonTxt::wrap(const std::map<std::string, std::string> &parameters,
 
 std::shared_ptr<Txt> JsonTxt::wrap(std::shared_ptr<Txt> txt,
                                    std::string *error) {
-  if (txt == nullptr)
+  if (txt == nullptr) {
+    safe_error(error) = "JsonTxt got null txt";
     return nullptr;
+  }
   std::shared_ptr<JsonTxt> jtxt = std::shared_ptr<JsonTxt>(new JsonTxt());
   assert(jtxt != nullptr);
   jtxt->txt_ = txt;
@@ -81,7 +83,10 @@ std::string JsonTxt::recipe_() {
 }
 
 std::shared_ptr<Txt> JsonTxt::clone_(std::string *error) {
-  return wrap(txt_->clone(error));
+  std::shared_ptr<Txt> txt = txt_->clone(error);
+  if (txt == nullptr)
+    return nullptr;
+  return wrap(txt, error);
 }
 
 std::string JsonTxt::translate_(addr p, addr q) {
diff --git a/src/stemmer.cc b/src/stemmer.cc
index 0ec193d..8e0f31a 100644
--- a/src/stemmer.cc
+++ b/src/stemmer.cc
@@ -26,6 +26,9 @@ std::shared_ptr<Stemmer> Stemmer::make(const std::string &name,
 
 bool Stemmer::check(const std::string &name, const std::string &recipe,
                     std::string *error) {
-  return name == "" || name == "null" || name == "porter";
+  if (name == "" || name == "null" || name == "porter")
+    return true;
+  safe_error(error) = "No Stemmer named: " + name;
+  return false;
 }
 } // namespace cottontail
diff --git a/src/tfdf_compressor.h b/src/tfdf_compressor.h
index 468208d..2991be7 100644
--- a/src/tfdf_compressor.h
+++ b/src/tfdf_compressor.h
@@ -19,8 +19,10 @@ public:
         std::make_shared<TfdfCompressor>();
     if (recipe == "component")
       compressor->component_ = true;
-    else if (recipe != "")
+    else if (recipe != "") {
+      safe_error(error) = "Bad TfdfCompressor recipe";
       return nullptr;
+    }
     return compressor;
   }
   static std::shared_ptr<Compressor> make() {
-- 
2.43.0


From fd75f76ad1e2092076cc7198d1eff231724bc593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:03 +0000
Subject: [PATCH 29/48] fix: a plain wrapped featurizer name leaves no message
 behind

---
 src/vocab_featurizer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vocab_featurizer.cc b/src/vocab_featurizer.cc
index 3ec5f90..6294041 100644
--- a/src/vocab_featurizer.cc
+++ b/src/vocab_featurizer.cc
@@ -23,7 +23,7 @@ bool interpret_recipe(const std::string &recipe, std::string *wrapped_name,
     return true;
   }
   std::map<std::string, std::string> parameters;
-  if (cook(recipe, &parameters, error)) {
+  if (cook(recipe, &parameters)) {
     if (parameters.find("name") == parameters.end() ||
         parameters.find("recipe") == parameters.end()) {
       safe_error(error) = "VocabFeaturizer got a bad recipe";
-- 
2.43.0


From 33dd36098f2d16ca4610b547dbfb0275e15eaf42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:15 +0000
Subject: [PATCH 30/48] fix: a step that failed is not used or passed over

---
 meadowlark/tf-idf_stats.cc | 2 ++
 src/builder.cc             | 2 ++
 src/fastid_txt.cc          | 2 +-
 src/fiver.cc               | 2 +-
 src/simple_txt.cc          | 2 ++
 5 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/meadowlark/tf-idf_stats.cc b/meadowlark/tf-idf_stats.cc
index dcac6d5..41bf66d 100644
--- a/meadowlark/tf-idf_stats.cc
+++ b/meadowlark/tf-idf_stats.cc
@@ -97,6 +97,8 @@ std::shared_ptr<Stats> TfIdfStats::make(const std::string &recipe,
     return nullptr;
   std::shared_ptr<Featurizer> total_featurizer =
       TaggingFeaturizer::make(warren->featurizer(), label + "total", error);
+  if (total_featurizer == nullptr)
+    return nullptr;
   hopper = warren->idx()->hopper(total_featurizer->featurize("items"));
   if (hopper == nullptr) {
     if (recipe == "")
diff --git a/src/builder.cc b/src/builder.cc
index 866d836..d53bab4 100644
--- a/src/builder.cc
+++ b/src/builder.cc
@@ -158,6 +158,8 @@ bool build_trec(const std::vector<std::string> &text,
     if (builder->verbose())
       std::cout << "Builder inhaling: " << filename << "\n";
     std::shared_ptr<std::string> contents = inhale(filename, error);
+    if (contents == nullptr)
+      return false;
     addr p, q;
     if (!builder->add_text(*contents, &p, &q, error))
       return false;
diff --git a/src/fastid_txt.cc b/src/fastid_txt.cc
index 4bfbe80..67bc142 100644
--- a/src/fastid_txt.cc
+++ b/src/fastid_txt.cc
@@ -96,7 +96,7 @@ std::shared_ptr<Txt> FastidTxt::make(std::shared_ptr<Txt> txt,
   std::unique_ptr<char[]> t_buffer = std::unique_ptr<char[]>(new char[n + 1]);
   std::shared_ptr<Compressor> post_compressor = get_post_compressor(error);
   std::shared_ptr<Compressor> text_compressor = get_text_compressor(error);
-  if (post_compressor == nullptr)
+  if (post_compressor == nullptr || text_compressor == nullptr)
     return nullptr;
   size_t k;
   k = *(reinterpret_cast<size_t *>(b));
diff --git a/src/fiver.cc b/src/fiver.cc
index 5d4933b..85e5457 100644
--- a/src/fiver.cc
+++ b/src/fiver.cc
@@ -365,7 +365,7 @@ Fiver::make(std::shared_ptr<Working> working,
     return nullptr;
   std::shared_ptr<Appender> appender =
       FiverAppender::make(text, featurizer, tokenizer, annotator, error);
-  if (annotator == nullptr)
+  if (appender == nullptr)
     return nullptr;
   std::shared_ptr<Idx> idx = NullIdx::make("", error);
   if (idx == nullptr)
diff --git a/src/simple_txt.cc b/src/simple_txt.cc
index cf15191..e44c168 100644
--- a/src/simple_txt.cc
+++ b/src/simple_txt.cc
@@ -110,6 +110,8 @@ std::shared_ptr<Txt> SimpleTxt::make(const std::string &recipe,
   txt->compressor_recipe_ = compressor_recipe;
   std::shared_ptr<Compressor> text_compressor =
       Compressor::make(compressor_name, compressor_recipe, error);
+  if (text_compressor == nullptr)
+    return nullptr;
   std::string raw_filename = working->make_name(RAW_NAME);
   std::string map_filename = working->make_name(MAP_NAME);
   txt->io_ =
-- 
2.43.0


From 1e4521621d47111dcd4a3e1ce30a2f194097b615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:48 +0000
Subject: [PATCH 31/48] fix: a tokenizer recipe that is refused no longer
 crashes Tokenizer::make

---
 src/tokenizer.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tokenizer.cc b/src/tokenizer.cc
index c0e9b66..b28e220 100644
--- a/src/tokenizer.cc
+++ b/src/tokenizer.cc
@@ -16,10 +16,12 @@ std::shared_ptr<Tokenizer> Tokenizer::make(const std::string &name,
   std::shared_ptr<Tokenizer> tokenizer = nullptr;
   if (name == "" || name == "ascii") {
     tokenizer = AsciiTokenizer::make(recipe, error);
-    tokenizer->name_ = "ascii";
+    if (tokenizer != nullptr)
+      tokenizer->name_ = "ascii";
   } else if (name == "utf8") {
     tokenizer = Utf8Tokenizer::make(recipe, error);
-    tokenizer->name_ = "utf8";
+    if (tokenizer != nullptr)
+      tokenizer->name_ = "utf8";
   } else {
     safe_error(error) = "No Tokenizer named: " + name;
   }
-- 
2.43.0


From e75d8ba16605e1d1803d368c3357d234377338f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:48 +0000
Subject: [PATCH 32/48] fix: SimpleBuilder::make reports a component it cannot
 make

---
 src/simple_builder.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/simple_builder.cc b/src/simple_builder.cc
index cc4bff7..a5c0608 100644
--- a/src/simple_builder.cc
+++ b/src/simple_builder.cc
@@ -354,6 +354,8 @@ SimpleBuilder::make(std::shared_ptr<Working> working, const std::string &recipe,
       DEFAULT_ANN_FILE_SIZE, posting_compressor_name, posting_compressor_recipe,
       fvalue_compressor_name, fvalue_compressor_recipe, text_compressor_name,
       text_compressor_recipe);
+  if (builder == nullptr)
+    return nullptr;
   builder->write_dna_ = false;
   return builder;
 }
-- 
2.43.0


From 14efb1e12b8bc488cd10dc45a5c9271eb79a3a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:48 +0000
Subject: [PATCH 33/48] fix: opening a meadow that cannot be opened reports it

---
 meadowlark/meadowlark.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/meadowlark/meadowlark.cc b/meadowlark/meadowlark.cc
index 01e60fa..c2a87b4 100644
--- a/meadowlark/meadowlark.cc
+++ b/meadowlark/meadowlark.cc
@@ -52,6 +52,8 @@ std::shared_ptr<Warren> create_meadow(std::string *error) {
 std::shared_ptr<Warren> open_meadow(const std::string &meadow,
                                     std::string *error) {
   std::shared_ptr<Warren> warren = Warren::make(meadow, error);
+  if (warren == nullptr)
+    return nullptr;
   warren->start();
   if (is_meadow(warren, error)) {
     warren->end();
-- 
2.43.0


From c5bd8456dafde4a20b8789e17682e8d82cf222ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:48 +0000
Subject: [PATCH 34/48] fix: foraging with an unknown forager reports it
 instead of crashing, and failures keep their message

---
 meadowlark/meadowlark.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/meadowlark/meadowlark.cc b/meadowlark/meadowlark.cc
index c2a87b4..5bff98f 100644
--- a/meadowlark/meadowlark.cc
+++ b/meadowlark/meadowlark.cc
@@ -444,7 +444,7 @@ bool forage(std::shared_ptr<Warren> warren,
       std::lock_guard<std::mutex> _(sync);
       if (failed)
         return;
-      twarren = warren->clone(error);
+      twarren = warren->clone(&terror);
       if (twarren == nullptr) {
         failed = true;
         safe_error(error) = terror;
@@ -454,7 +454,7 @@ bool forage(std::shared_ptr<Warren> warren,
     twarren->start();
     std::shared_ptr<Forager> forager =
         Forager::make(twarren, name, tag, params, &terror);
-    if (!forager->transaction(&terror)) {
+    if (forager == nullptr || !forager->transaction(&terror)) {
       std::lock_guard<std::mutex> _(sync);
       twarren->end();
       if (!failed) {
@@ -464,7 +464,8 @@ bool forage(std::shared_ptr<Warren> warren,
       return;
     }
     if ((start == 0 && !forager->label(&terror)) ||
-        !forager->forage(intervals, start, n, &terror) || !forager->ready()) {
+        !forager->forage(intervals, start, n, &terror) ||
+        !forager->ready(&terror)) {
       std::lock_guard<std::mutex> _(sync);
       forager->abort();
       twarren->end();
-- 
2.43.0


From 5ff946bd7a06ed13d4b7a889fca0eae36ba844d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:48 +0000
Subject: [PATCH 35/48] fix: tf-idf statistics with a malformed id query are
 refused

---
 meadowlark/tf-idf_stats.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/meadowlark/tf-idf_stats.cc b/meadowlark/tf-idf_stats.cc
index 41bf66d..638363f 100644
--- a/meadowlark/tf-idf_stats.cc
+++ b/meadowlark/tf-idf_stats.cc
@@ -52,6 +52,8 @@ std::shared_ptr<Stats> TfIdfStats::make(const std::string &recipe,
     id_query = ":0:";
   else
     id_query = parameters["id"];
+  if ((hopper = warren->hopper_from_gcl(id_query, error)) == nullptr)
+    return nullptr;
   std::string content_query = parameters["gcl"];
   if ((hopper = warren->hopper_from_gcl(content_query, error)) == nullptr)
     return nullptr;
-- 
2.43.0


From 9d49cafa8fc17ba33a0a62c5ea6e514ed321320b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:06 +0000
Subject: [PATCH 36/48] fix: the working directory's name is quoted in the
 commands that make, list and clean it

---
 src/working.cc |  4 ++--
 src/working.h  | 15 +++++++++++++--
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/working.cc b/src/working.cc
index 7e905b5..b50f7c3 100644
--- a/src/working.cc
+++ b/src/working.cc
@@ -343,12 +343,12 @@ std::vector<std::string> Working::ls(const std::string &prefix) {
   FILE *fp = fopen("/usr/bin/ls", "r");
   if (fp) {
     fclose(fp);
-    ls_command = "/usr/bin/ls " + working_;
+    ls_command = "/usr/bin/ls -- " + quote(working_);
   } else {
     fp = fopen("/bin/ls", "r");
     assert(fp);
     fclose(fp);
-    ls_command = "/bin/ls " + working_;
+    ls_command = "/bin/ls -- " + quote(working_);
   }
   FILE *pipe = popen(ls_command.c_str(), "r");
   assert(pipe);
diff --git a/src/working.h b/src/working.h
index 4b4ad8b..107b324 100644
--- a/src/working.h
+++ b/src/working.h
@@ -97,10 +97,10 @@ public:
       : working_(working), temp_counter_(0) {
     if (mkdir) {
       // TODO: Replace with direct function calls. Maybe boost can do this?
-      std::string mkdir_command = "/bin/mkdir -p " + working;
+      std::string mkdir_command = "/bin/mkdir -p -- " + quote(working);
       system(mkdir_command.c_str());
     }
-    std::string cleanup_command = "/bin/rm -f " + working + "/temp.*";
+    std::string cleanup_command = "/bin/rm -f -- " + quote(working) + "/temp.*";
     system(cleanup_command.c_str());
   }
   std::string make_name(const std::string &name) {
@@ -159,6 +159,17 @@ public:
 
 private:
   Working(){};
+  static std::string quote(const std::string &name) {
+    std::string quoted = "'";
+    for (char c : name) {
+      if (c == '\'')
+        quoted += "'\\''";
+      else
+        quoted += c;
+    }
+    quoted += "'";
+    return quoted;
+  }
   std::mutex lock_;
   std::set<std::string> load_;
   std::string working_;
-- 
2.43.0


From b1277f481da554d6e4bd0a85e498a90d38cb7285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:40 +0000
Subject: [PATCH 37/48] fix: field statistics abort their transaction when a
 length cannot be annotated

---
 src/ranking.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ranking.cc b/src/ranking.cc
index e41de8f..6681afb 100644
--- a/src/ranking.cc
+++ b/src/ranking.cc
@@ -1743,8 +1743,10 @@ bool tf_field_annotations(std::shared_ptr<Warren> warren, std::string *error) {
       else
         it->second++;
     }
-    if (!warren->annotator()->annotate(length_feature, p, p, length, error))
+    if (!warren->annotator()->annotate(length_feature, p, p, length, error)) {
+      warren->abort();
       return false;
+    }
     total_length += length;
   }
   if (total_items == 0) {
-- 
2.43.0


From 523bdd4fc12f9953707f267037f84b562950878d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:40 +0000
Subject: [PATCH 38/48] fix: a tf-idf forager that found nothing still asks its
 warren to be ready

---
 meadowlark/tf-idf_forager.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meadowlark/tf-idf_forager.cc b/meadowlark/tf-idf_forager.cc
index 2d64a2f..3661d69 100644
--- a/meadowlark/tf-idf_forager.cc
+++ b/meadowlark/tf-idf_forager.cc
@@ -99,7 +99,7 @@ bool TfIdfForager::forage_(addr p, addr q, std::string *error) {
 
 bool TfIdfForager::ready_(std::string *error) {
   if (p_min_ == maxfinity)
-    return true;
+    return warren_->ready(error);
   for (auto &feature : df_)
     if (!warren_->annotator()->annotate(feature.first, p_min_, p_min_,
                                         feature.second, error))
-- 
2.43.0


From ac58c600594a86f2b89f9782b672ca743caf5629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:40 +0000
Subject: [PATCH 39/48] fix: json-examples commits its dates only when the
 warren is ready

---
 apps/json-examples.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/apps/json-examples.cc b/apps/json-examples.cc
index 549feea..37128cc 100644
--- a/apps/json-examples.cc
+++ b/apps/json-examples.cc
@@ -355,7 +355,10 @@ bool annotate_dates(std::shared_ptr<cottontail::Warren> warren,
   annotate_companies(warren);
   annotate_profiles(warren);
   annotate_trades(warren);
-  warren->ready();
+  if (!warren->ready(error)) {
+    warren->abort();
+    return false;
+  }
   warren->commit();
   if (!warren->set_parameter("has_dates", "yes", error))
     return false;
-- 
2.43.0


From 43d9f1f23da1af03860d151988fccc55bcb7b78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:24 +0000
Subject: [PATCH 40/48] fix: a cloned bigwig keeps the text recipe of the
 original

---
 src/bigwig.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bigwig.cc b/src/bigwig.cc
index f5064f3..57d4178 100644
--- a/src/bigwig.cc
+++ b/src/bigwig.cc
@@ -677,6 +677,7 @@ std::shared_ptr<Warren> Bigwig::clone_(std::string *error) {
   bigwig->fvalue_compressor_ = fvalue_compressor_;
   bigwig->posting_factory_ = posting_factory_;
   bigwig->text_compressor_ = text_compressor_;
+  bigwig->txt_recipe_ = txt_recipe_;
   bigwig->default_container_ = default_container_;
   if (stemmer_ != nullptr) {
     std::shared_ptr<cottontail::Stemmer> the_stemmer =
-- 
2.43.0


From 7046bcbef41977192c31f9d23ea3b5b751fce6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:24 +0000
Subject: [PATCH 41/48] fix: a cloned simple warren keeps its name

---
 src/simple_warren.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/simple_warren.cc b/src/simple_warren.cc
index c34cf8a..1c2e5bd 100644
--- a/src/simple_warren.cc
+++ b/src/simple_warren.cc
@@ -120,6 +120,7 @@ std::shared_ptr<Warren> SimpleWarren::clone_(std::string *error) {
   std::shared_ptr<SimpleWarren> warren = std::shared_ptr<SimpleWarren>(
       new SimpleWarren(working_, featurizer_, tokenizer_, idx_, txt));
   assert(warren != nullptr);
+  warren->name_ = name_;
   warren->default_container_ = default_container_;
   if (stemmer_ != nullptr) {
     std::shared_ptr<cottontail::Stemmer> the_stemmer =
-- 
2.43.0


From e04acf3648ac33a81464c50536b34eae5d112440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:15 +0000
Subject: [PATCH 42/48] fix: an annotator or builder that is given up waits for
 its sorting threads

---
 src/simple_annotator.h | 2 +-
 src/simple_builder.h   | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/simple_annotator.h b/src/simple_annotator.h
index dad19a0..86443fe 100644
--- a/src/simple_annotator.h
+++ b/src/simple_annotator.h
@@ -29,7 +29,7 @@ public:
                       std::shared_ptr<Working> working,
                       std::string *error = nullptr);
 
-  virtual ~SimpleAnnotator(){};
+  virtual ~SimpleAnnotator() { wait_for_workers(); };
   SimpleAnnotator(const SimpleAnnotator &) = delete;
   SimpleAnnotator &operator=(const SimpleAnnotator &) = delete;
   SimpleAnnotator(SimpleAnnotator &&) = delete;
diff --git a/src/simple_builder.h b/src/simple_builder.h
index 38f083c..d3069c3 100644
--- a/src/simple_builder.h
+++ b/src/simple_builder.h
@@ -40,7 +40,11 @@ public:
        std::string text_compressor_name = TEXT_COMPRESSOR_NAME,
        std::string text_compressor_recipe = TEXT_COMPRESSOR_RECIPE);
 
-  virtual ~SimpleBuilder(){};
+  virtual ~SimpleBuilder() {
+    for (auto &worker : workers_)
+      if (worker.joinable())
+        worker.join();
+  };
   SimpleBuilder(const SimpleBuilder &) = delete;
   SimpleBuilder &operator=(const SimpleBuilder &) = delete;
   SimpleBuilder(SimpleBuilder &&) = delete;
-- 
2.43.0


From b717164cc933510dca0aaaccb539f6484fd50dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:23 +0000
Subject: [PATCH 43/48] fix: annotating, erasing or appending after a commit is
 refused instead of using the text and annotations given up by it

---
 src/fiver.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/fiver.cc b/src/fiver.cc
index 85e5457..8bf8bc7 100644
--- a/src/fiver.cc
+++ b/src/fiver.cc
@@ -61,10 +61,18 @@ private:
   std::string recipe_() final { return ""; };
   bool annotate_(addr feature, addr p, addr q, fval v,
                  std::string *error = nullptr) final {
+    if (annotations_ == nullptr) {
+      safe_error(error) = "FiverAnnotator can't annotate after commit";
+      return false;
+    }
     annotations_->emplace_back(feature, p, q, v);
     return true;
   };
   bool erase_(addr p, addr q, std::string *error) {
+    if (annotations_ == nullptr) {
+      safe_error(error) = "FiverAnnotator can't erase after commit";
+      return false;
+    }
     annotations_->emplace_back(null_feature, p, q, 0.0);
     return true;
   }
@@ -117,6 +125,10 @@ private:
   FiverAppender(){};
   std::string recipe_() final { return ""; };
   bool append_(const std::string &text, addr *p, addr *q, std::string *error) {
+    if (text_ == nullptr) {
+      safe_error(error) = "FiverAppender can't append after commit";
+      return false;
+    }
     if (text.length() == 0) {
       *p = address_ + 1;
       *q = address_;
-- 
2.43.0


From 76878d2907c524a0fce94512241311f752d65cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:21 +0000
Subject: [PATCH 44/48] fix: null annotator and appender can be made ready once
 they have accepted a transaction

---
 src/null_annotator.h | 1 +
 src/null_appender.h  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/null_annotator.h b/src/null_annotator.h
index 0d73fbd..29a30fb 100644
--- a/src/null_annotator.h
+++ b/src/null_annotator.h
@@ -44,6 +44,7 @@ private:
     return true;
   }
   bool transaction_(std::string *error) final { return true; }
+  bool ready_(std::string *error) final { return true; }
 };
 
 } // namespace cottontail
diff --git a/src/null_appender.h b/src/null_appender.h
index 64ec343..196ea2b 100644
--- a/src/null_appender.h
+++ b/src/null_appender.h
@@ -53,6 +53,7 @@ private:
     return true;
   }
   bool transaction_(std::string *error) final { return true; }
+  bool ready_(std::string *error) final { return true; }
 };
 
 } // namespace cottontail
-- 
2.43.0


From 79251702e9bf37ee55b5daa883ad74378b0d01a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:21 +0000
Subject: [PATCH 45/48] fix: a builder's annotator and appender refuse a
 transaction when their builder is gone

---
 src/scribe.cc | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/scribe.cc b/src/scribe.cc
index 5b8df41..4cd4221 100644
--- a/src/scribe.cc
+++ b/src/scribe.cc
@@ -126,7 +126,13 @@ private:
     }
     return builder_->add_annotation(feature, p, q, v, error);
   };
-  bool transaction_(std::string *error) final { return true; };
+  bool transaction_(std::string *error) final {
+    if (builder_ == nullptr) {
+      safe_error(error) = "BuilderAnnotator does not support more than one transaction";
+      return false;
+    }
+    return true;
+  };
   bool ready_(std::string *error) final { return true; };
   void commit_() final { builder_ = nullptr; };
   void abort_() final { builder_ = nullptr; };
@@ -165,7 +171,13 @@ private:
     }
     return builder_->add_text(text, p, q, error);
   };
-  bool transaction_(std::string *error) final { return true; };
+  bool transaction_(std::string *error) final {
+    if (builder_ == nullptr) {
+      safe_error(error) = "BuilderAppender does not support more than one transaction";
+      return false;
+    }
+    return true;
+  };
   bool ready_(std::string *error) final { return true; };
   void commit_() final { builder_ = nullptr; };
   void abort_() final { builder_ = nullptr; };
-- 
2.43.0


From d503aece24c093cad9921a996d9c7a2a5ef95c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:08 +0000
Subject: [PATCH 46/48] fix: a reader with an unknown recipe is refused

---
 src/working.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/working.cc b/src/working.cc
index b50f7c3..e773b5a 100644
--- a/src/working.cc
+++ b/src/working.cc
@@ -211,7 +211,7 @@ std::shared_ptr<Reader> Reader::make(const std::string &name,
     return FileReader::make(name, error);
   } else if (recipe == "full") {
     return FullReader::make(name, error);
-  } else if (recipe == "compressed" || "compression test") {
+  } else if (recipe == "compressed" || recipe == "compression test") {
     return CompressReader::make(name, error);
   } else {
     safe_error(error) = "Can't make reader with recipe: " + recipe;
-- 
2.43.0


From 1f53ff60b3cd95580f1e10de9fa777c1ee21f5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:08 +0000
Subject: [PATCH 47/48] fix: checking a null index accepts what making one
 accepts

---
 src/idx.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/idx.cc b/src/idx.cc
index 335afb6..5925a35 100644
--- a/src/idx.cc
+++ b/src/idx.cc
@@ -36,6 +36,8 @@ bool Idx::check(const std::string &name, const std::string &recipe,
                 std::string *error) {
   if (name == "" || name == "simple") {
     return SimpleIdx::check(recipe, error);
+  } else if (name == "null") {
+    return NullIdx::check(recipe, error);
   } else {
     safe_error(error) = "No Idx named: " + name;
     return false;
-- 
2.43.0


From e5c9d8d77df672aa1b52a076656f7c90827cf566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:55:26 +0000
Subject: [PATCH 48/48] fix: reject query text left over after an expression

---
 gcl/parse.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/gcl/parse.cc b/gcl/parse.cc
index 5b6a79b..6430582 100644
--- a/gcl/parse.cc
+++ b/gcl/parse.cc
@@ -180,8 +180,15 @@ std::shared_ptr<SExpression> SExpression::from_string(std::string s,
   std::shared_ptr<SExpression> expr = std::make_shared<SExpression>();
   bool okay;
   const char *where = parse_expr(s.c_str(), expr, &okay);
-  if (okay)
-    return expr;
+  if (okay) {
+    // an operator ends at its bracket, which parse_expr leaves to its caller
+    if (expr->kind_ != Operator::TERM)
+      where++;
+    while (is_whitespace(*where))
+      where++;
+    if (*where == '\0')
+      return expr;
+  }
   safe_error(error) =
       "parse error at offset " + std::to_string(where - s.c_str()) + ":" + s;
   return nullptr;
-- 
2.43.0

